From 8f8f05e375b1292226825a6d35502ad065ec17f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 01/63] fix: Appends to an empty parameter must not create a
 leading space

NextEntry never advances past an empty first entry, so that going through
the list of a parameter that was first empty and then appended to did not
terminate.
---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 60b2ac3..35c08fd 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -379,7 +379,8 @@ void Appends(char *name, char *value)
   {
     char *oldvalue = Gets(name);
     char *newvalue = cmalloc(strlen(oldvalue) + strlen(value) + 2);
-    sprintf(newvalue, "%s %s", oldvalue, value);
+    if(*oldvalue) sprintf(newvalue, "%s %s", oldvalue, value);
+    else          sprintf(newvalue, "%s", value); /* no leading space */
     setparameter(name, newvalue);
     free(newvalue);
   }
-- 
2.43.0


From c7da60999302cb7ffb12304078aa7c326a45e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 02/63] fix: Getv has to find a word that also occurs earlier
 as the end of another word

E.g. with "Opt = numFFT FFT" Getv("Opt","FFT") returned 0, because the search
stopped at the FFT in numFFT.
---
 src/main/main/parameters.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 35c08fd..6ce736c 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -430,7 +430,9 @@ int GetvFlag(char *name, char *value, int fatal)
   {
     lv = strlen(value);
     //printf("ls=%d  value=%s| s=%s| p->value=%s|\n", ls, value, s, p->value); 
-    if( s[lv]==' ' || s[lv]==0 ) break;
+    /* stop only at a whole word, otherwise look for a later occurrence */
+    if( (s[lv]==' ' || s[lv]==0) && (s==p->value || *(s-1)==' ') ) break;
+    if(*s==0) return 0;
     parval = s+1;
   }
   if (!s) return 0;
-- 
2.43.0


From 850975ebe2311d5981829d1c0e6019436c365ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 03/63] fix: Fourier basis functions have to be zero-phase at
 the lower end of the interval

The Fourier coefficients are computed with phases that start at the first
grid point X=a. The basis functions used for interpolation started at X=0
instead, so that interpolation was wrong in every box where a is not a
multiple of the period.
---
 src/utility/Spectral/explicit_Four_trafos.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility/Spectral/explicit_Four_trafos.c b/src/utility/Spectral/explicit_Four_trafos.c
index 2c174f4..ea2c5e7 100644
--- a/src/utility/Spectral/explicit_Four_trafos.c
+++ b/src/utility/Spectral/explicit_Four_trafos.c
@@ -222,9 +222,9 @@ double four_basisfunc_alt(void *aux, double a, double b, int n, int N, double X)
   double K = 2.0*PI/(b-a);
   int j = n/2 + n%2;
 
-  if(n%2!=0) return cos(j*K*X);
+  if(n%2!=0) return cos(j*K*(X-a));
   if(n==0)   return 1.0;
-  return sin(j*K*X);
+  return sin(j*K*(X-a));
 }
 
 
@@ -235,9 +235,9 @@ double four_basisfunc(void *aux, double a, double b, int k, int N, double X)
   int j = k/2 + k%2;
 
   if(k==0)              return 1.0/N;
-  if(k==N-1 && N%2==0)  return cos(j*K*X)*1.0/N;;
-  if(k%2!=0)            return cos(j*K*X)*2.0/N;
-  return sin(j*K*X)*2.0/N;
+  if(k==N-1 && N%2==0)  return cos(j*K*(X-a))*1.0/N;;
+  if(k%2!=0)            return cos(j*K*(X-a))*2.0/N;
+  return sin(j*K*(X-a))*2.0/N;
 }
 
 
-- 
2.43.0


From b7a09181ede87b51a6061d94029352c497ceba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 04/63] fix: NUMREC_FFT cannot do transforms of length 1

numrec_realft and the cosine transforms built on it write to the 2nd element
of the array, so use matrix multiplication if the FFT has length 1.
---
 src/utility/Spectral/spec_coeffs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index 941dd77..ee4e74f 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -617,9 +617,9 @@ void set_TransformType_flags_inbox(tBox *box)
     snprintf(bas, 999, "box%d_basis%d", box->b, dir);
     /* printf("str=%s=%s\nbas=%s=%s\n", str, Gets(str), bas, Gets(bas)); */
     if( Getv(str, "NUMREC_FFT") && nb>=Geti(str) && Geti(str)>=0 &&
-        ( (Getv(bas, "ChebExtrema") && is_power_of_two(nb-1)) ||
-          (Getv(bas, "ChebZeros") && is_power_of_two(nb)) ||
-          (Getv(bas, "Fourier") && is_power_of_two(nb))          )  )
+        ( (Getv(bas, "ChebExtrema") && nb>2 && is_power_of_two(nb-1)) ||
+          (Getv(bas, "ChebZeros") && nb>1 && is_power_of_two(nb)) ||
+          (Getv(bas, "Fourier") && nb>1 && is_power_of_two(nb))      )  )
       *Ttype=NUMREC_FFT;
     else if( Getv(str, "FFTW3") && nb>=Geti(str) && Geti(str)>=0 &&
              ( Getv(bas, "ChebExtrema") ||
-- 
2.43.0


From 362db80e53440421e5720ec48f355fe49fa5de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 05/63] fix: finite difference bases must not crash grid setup
 and have to use their 2nd derivative

make_grid called the integration function of the basis, which is NULL for
fd2_onesided and fd2_periodic. Also the box struct did not store the function
for 2nd derivatives, so that fd2_2ndderiv_* were never used.
---
 src/utility/Spectral/diffmatrices.c | 3 +++
 src/utility/Spectral/spec_coeffs.c  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/utility/Spectral/diffmatrices.c b/src/utility/Spectral/diffmatrices.c
index aa1f74a..3572a35 100644
--- a/src/utility/Spectral/diffmatrices.c
+++ b/src/utility/Spectral/diffmatrices.c
@@ -283,6 +283,9 @@ void initIntegrationMatrix(double a, double b, double *Int, int n1,
   double *c;
   double *d;
 
+  /* some bases (e.g. finite differences) do not have integration */
+  if(coeffs_of_int==NULL) return;
+
   u = (double *) calloc(n1, sizeof(double));
   c = (double *) calloc(n1, sizeof(double));
   d = (double *) calloc(n1, sizeof(double));
diff --git a/src/utility/Spectral/spec_coeffs.c b/src/utility/Spectral/spec_coeffs.c
index ee4e74f..e47aa02 100644
--- a/src/utility/Spectral/spec_coeffs.c
+++ b/src/utility/Spectral/spec_coeffs.c
@@ -791,6 +791,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs1      = get_coeffs;
       box->coeffs_of_deriv1 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv1 = coeffs_of_2ndderiv;
       box->coeffs_of_int1   = coeffs_of_int;
       box->eval_onPoints1   = eval_onPoints;
       box->filter_coeffs1   = filter_coeffs;
@@ -800,6 +801,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs2      = get_coeffs;
       box->coeffs_of_deriv2 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv2 = coeffs_of_2ndderiv;
       box->coeffs_of_int2   = coeffs_of_int;
       box->eval_onPoints2   = eval_onPoints;
       box->filter_coeffs2   = filter_coeffs;
@@ -809,6 +811,7 @@ void init_spec_functionpointers(tBox *box)
     {
       box->get_coeffs3      = get_coeffs;
       box->coeffs_of_deriv3 = coeffs_of_deriv;
+      box->coeffs_of_2ndderiv3 = coeffs_of_2ndderiv;
       box->coeffs_of_int3   = coeffs_of_int;
       box->eval_onPoints3   = eval_onPoints;
       box->filter_coeffs3   = filter_coeffs;
@@ -834,6 +837,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs1;
     *coeffs_of_deriv = box->coeffs_of_deriv1;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv1;
     *coeffs_of_int   = box->coeffs_of_int1;
     *eval_onPoints   = box->eval_onPoints1;
     *filter_coeffs   = box->filter_coeffs1;
@@ -843,6 +847,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs2;
     *coeffs_of_deriv = box->coeffs_of_deriv2;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv2;
     *coeffs_of_int   = box->coeffs_of_int2;
     *eval_onPoints   = box->eval_onPoints2;
     *filter_coeffs   = box->filter_coeffs2;
@@ -852,6 +857,7 @@ void get_spec_functionpointers(tBox *box, int dir,
   {
     *get_coeffs      = box->get_coeffs3;
     *coeffs_of_deriv = box->coeffs_of_deriv3;
+    *coeffs_of_2ndderiv = box->coeffs_of_2ndderiv3;
     *coeffs_of_int   = box->coeffs_of_int3;
     *eval_onPoints   = box->eval_onPoints3;
     *filter_coeffs   = box->filter_coeffs3;
-- 
2.43.0


From a991cbb0285f72bd8d465aed6b3b5866b78891a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 06/63] fix: spec_sphericalDF2dIntegral must not drop the
 highest mode if n2 is odd

---
 src/utility/Spectral/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/integrals.c b/src/utility/Spectral/integrals.c
index a6b8a2f..d72de17 100644
--- a/src/utility/Spectral/integrals.c
+++ b/src/utility/Spectral/integrals.c
@@ -390,7 +390,7 @@ void spec_sphericalDF2dIntegral(tBox *box, double *u, double *U)
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
@@ -479,7 +479,7 @@ void spec_sphericalDF2dIntegral_at_radial_index_i(tBox *box,
           sum = (1.0/PI) * U[Index(i,0,k)];
           sum += 0.5*( sin(PI2*d) * U[Index(i,1,k)]
                       +cos(PI2*d) * U[Index(i,2,k)] );
-          for(n=2;n<N/2;n+=2)
+          for(n=2;2*n<N;n+=2)
           {
             Re_c_n = U[Index(i, 2*n-1, k)]; /* c[2*n-1]; */
             Im_c_n = U[Index(i, 2*n, k)];   /* c[2*n];   */
-- 
2.43.0


From 9d1cb484bc5bfdb7e6a08f16ad4a35c3c653dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 07/63] fix: BSSN filter type 'simple' has to filter the
 variables it is given

---
 src/physics/BSSN/BSSN.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/BSSN/BSSN.c b/src/physics/BSSN/BSSN.c
index 6e1462e..a7a0a7e 100644
--- a/src/physics/BSSN/BSSN.c
+++ b/src/physics/BSSN/BSSN.c
@@ -551,7 +551,7 @@ void BSSN_ChooseAndApplyFilters(tVarList *vl)
     if(Getv("BSSN_filter_type", "coordinateDependentFilter"))
       coordinateDependentFilter(vl);
     if(Getv("BSSN_filter_type", "simple"))
-      BSSN_filter_unew(BSSNvars, NULL);
+      BSSN_filter_unew(vl, NULL);
     if(Getv("BSSN_filter_type", "naive_Ylm"))
       Naive_YlmFilter_lmshift(vl, 0);
     if(Getv("BSSN_filter_type", "Ylm_lmshift"))
-- 
2.43.0


From 7030ed45c02aa7612ab67499defa98e757c55bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 08/63] fix: The tensor index forms with 4 indices and sums
 have to be recognized

---
 src/main/main/tensors.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index 74f7740..ed5038e 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -150,7 +150,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk)") == 0 ||
+  if(strcmp(tensorindices, "ijkl+ijlk+jikl+jilk") == 0 ||
      strcmp(tensorindices, "(ij)(kl)") == 0) {
     for (i = 0; i < 3; i++)
     for (j = i; j < 3; j++) 
@@ -258,7 +258,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "abij+abji+baij+baji)") == 0 ||
+  if(strcmp(tensorindices, "abij+abji+baij+baji") == 0 ||
      strcmp(tensorindices, "(ab)(ij)") == 0) {
     for (i = 0; i <= 3; i++)
     for (j = i; j <= 3; j++) 
@@ -317,7 +317,7 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     }
   }
 
-  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts)") == 0 ||
+  if(strcmp(tensorindices, "qrst+qrts+rqst+rqts") == 0 ||
      strcmp(tensorindices, "(qr)(st)") == 0) {
     for (i = 0; i < 2; i++)
     for (j = i; j < 2; j++) 
-- 
2.43.0


From 2393e8353427e2260699dcb0a9f60de2d3501caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 09/63] fix: DuplicatePointList_for_grid has to allocate room
 for the whole box list

---
 src/main/MemoryMan/points.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/points.c b/src/main/MemoryMan/points.c
index a623b21..4d2cf9f 100644
--- a/src/main/MemoryMan/points.c
+++ b/src/main/MemoryMan/points.c
@@ -222,7 +222,7 @@ tPointList *DuplicatePointList_for_grid(tPointList *PL0, tGrid *grid)
   }
 
   /* copy the blist */
-  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL->nblist+2));
+  ret=realloc(PL->blist, ( sizeof(*(PL->blist)) )*(PL0->nblist+2));
   if(ret==NULL) 
     errorexit("DuplicatePointList: not enough memory for PL->blist");
   PL->blist  = ret;
-- 
2.43.0


From 048a0979deb6a422c84ad0c5a6ce24ad274f58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 10/63] fix: Loops over point lists must not read points of
 boxes without points

---
 src/main/MemoryMan/sgrid_MemoryMan_loops.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/MemoryMan/sgrid_MemoryMan_loops.h b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
index 394f7bd..69aff2b 100644
--- a/src/main/MemoryMan/sgrid_MemoryMan_loops.h
+++ b/src/main/MemoryMan/sgrid_MemoryMan_loops.h
@@ -76,12 +76,14 @@
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList(pointlist, boxindx, pi , ijk) \
   forallboxes(pointlist->grid,boxindx) \
-    for(pi = 0 , ijk = pointlist->point[boxindx][pi]; \
-        pi < pointlist->npoints[boxindx]; \
-        pi++, ijk = pointlist->point[boxindx][pi-(pi==pointlist->npoints[boxindx])])
+    for(pi = 0; \
+        pi < pointlist->npoints[boxindx] && \
+        (ijk = pointlist->point[boxindx][pi], 1); \
+        pi++)
 
 /* loop over all points ijk in all boxes in list pointlist */
 #define forPointList_inbox(pointlist, box, pi , ijk) \
-  for(pi = 0 , ijk = pointlist->point[box->b][pi]; \
-        pi < pointlist->npoints[box->b]; \
-        pi++, ijk = pointlist->point[box->b][pi-(pi==pointlist->npoints[box->b])])
+  for(pi = 0; \
+      pi < pointlist->npoints[box->b] && \
+      (ijk = pointlist->point[box->b][pi], 1); \
+      pi++)
-- 
2.43.0


From 20361a27fa1b628365bb3fdbcb47b6c3b748dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 11/63] fix: copy_grid has to copy the data of inactive boxes
 too

---
 src/main/MemoryMan/grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/MemoryMan/grid.c b/src/main/MemoryMan/grid.c
index 53b2af3..1ab2fb9 100644
--- a/src/main/MemoryMan/grid.c
+++ b/src/main/MemoryMan/grid.c
@@ -478,7 +478,7 @@ int copy_grid(tGrid *g_old, tGrid *g_new, int pr)
   enablesamevars(g_old, g_new);
 
   /* copy all vars in all boxes */
-  forallboxes(g_new, b)
+  forallActiveAndInactiveboxes(g_new, b)
   {
     tBox *box_new = g_new->box[b];
     tBox *box_old = g_old->box[b];
-- 
2.43.0


From 7b45210de9e2d5fe596d0a2ebd8c837dae48ed0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 12/63] fix: vlswap must not share its temporary among threads

---
 src/main/main/variables.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/variables.c b/src/main/main/variables.c
index 913340e..266f2d8 100644
--- a/src/main/main/variables.c
+++ b/src/main/main/variables.c
@@ -660,9 +660,9 @@ void vlswap(tVarList *v, tVarList *u)
       SGRID_LEVEL3_Pragma(omp parallel for)
       for (i = 0; i < nnodes; i++)
       {
-        temp  = pv[i];
+        double tmp = pv[i];
         pv[i] = pu[i];
-        pu[i] = temp;
+        pu[i] = tmp;
       }
     }
   }
-- 
2.43.0


From 5ebf8d5ef4b404266b259b957852c1f50c587487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:56 +0000
Subject: [PATCH 13/63] fix: Symmetries of tensors with indices (ab)(ij) must
 be those of the spatial directions

---
 src/main/main/tensors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/main/tensors.c b/src/main/main/tensors.c
index ed5038e..6dc4575 100644
--- a/src/main/main/tensors.c
+++ b/src/main/main/tensors.c
@@ -265,8 +265,8 @@ void tensorindexlist(char *t, int *nilist, char **ilist, int *sym)
     for (k = 0; k < 3; k++)
     for (l = k; l < 3; l++)
     {
-      if (i > 0) sym[3*n+i] *= -1; 
-      if (j > 0) sym[3*n+j] *= -1;
+      if (i > 0) sym[3*n+i-1] *= -1; 
+      if (j > 0) sym[3*n+j-1] *= -1;
       sym[3*n+k] *= -1;
       sym[3*n+l] *= -1;
       ilist[n] = calloc(ilistSTRLEN, sizeof(char));
-- 
2.43.0


From c5ea1ca8eceb4b34b6bd5d065ed18daa75db18de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 14/63] fix: icn and euler have to keep track of the time of
 the evolved variables

---
 src/utility/evolve/icn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/evolve/icn.c b/src/utility/evolve/icn.c
index 13a1861..1988d35 100644
--- a/src/utility/evolve/icn.c
+++ b/src/utility/evolve/icn.c
@@ -25,6 +25,7 @@ void evolve_icn(tGrid *grid)
 
     /* u_c = u_p + k F(u_q) */
     evolve_rhs(u_c, u_p, dt, u_q);
+    u_c->time = u_p->time + dt;
 
     /* set algebraic BCs for u_c, and any other stuff needed */
     if(evolve_algebraicConditions) evolve_algebraicConditions(u_c, u_p);
@@ -50,6 +51,7 @@ void evolve_euler(tGrid *grid)
 
   /* u_c = u_p + k F(u_p) */  
   evolve_rhs(u_c, u_p, dt, u_p);
+  u_c->time = u_p->time + dt;
 
   /* set algebraic BCs for u_c, and any other stuff needed */
   if(evolve_algebraicConditions) evolve_algebraicConditions(u_c, u_p);
-- 
2.43.0


From 11d7ab9ae66c4da0343539490df682a9f87b8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:53 +0000
Subject: [PATCH 15/63] fix: Only the extension of the parameter file must be
 removed from iterated outdirs

---
 src/main/main/parameters.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 6ce736c..767780a 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -576,7 +576,8 @@ int iterate_parameters(int next)
   printf("Iterating parameters:\n");
 
   sprintf(newoutdir, "%s", Gets("parameterfile"));
-  *strstr(newoutdir, ".par") = '\0';
+  l = strlen(newoutdir);
+  if(l>=4 && strcmp(newoutdir+l-4, ".par")==0) newoutdir[l-4] = '\0';
 
   p = findparameter(iterpar, 0);
   if (!p)
-- 
2.43.0


From 1fe83f5ffb82ea05001b4bd85fc6172167c7a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 16/63] fix: remove_dir has to work with absolute paths and
 must not follow links

---
 src/main/main/utilities.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/main/utilities.c b/src/main/main/utilities.c
index 3cfaf03..30a7dbc 100644
--- a/src/main/main/utilities.c
+++ b/src/main/main/utilities.c
@@ -318,7 +318,8 @@ int remove_dir(char *which_dir)
 {
   DIR           *d;
   struct dirent *dir;
-  char file[1000];
+  struct stat st;
+  char file[10000];
   
   d = opendir(which_dir);
   if(d)
@@ -329,10 +330,11 @@ int remove_dir(char *which_dir)
       if( strcmp( dir->d_name, "." ) == 0 || strcmp( dir->d_name, ".." ) == 0)
         continue;
 
-      snprintf(file, 999, "./%s/%s", which_dir, dir->d_name);
+      snprintf(file, 9999, "%s/%s", which_dir, dir->d_name);
       //printf("*"); //print * for every deleted file
 
-      if(opendir(file)!=NULL) remove_dir(file);
+      /* remove links, but do not follow them into other directories */
+      if(lstat(file, &st)==0 && S_ISDIR(st.st_mode)) remove_dir(file);
       else
       {
         if(remove(file) != 0)
-- 
2.43.0


From fd9d5913d8259c2da58f222923037096e0ba3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 17/63] fix: Option --keep_previous has to be respected when
 parameters are iterated

---
 src/main/main/parameters.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/main/parameters.c b/src/main/main/parameters.c
index 767780a..387e950 100644
--- a/src/main/main/parameters.c
+++ b/src/main/main/parameters.c
@@ -625,8 +625,11 @@ int iterate_parameters(int next)
     outdirp = (char *) calloc(strlen(newoutdir)+40, sizeof(char));
     strcpy(outdirp, newoutdir);
     strcat(outdirp, "_previous");
-    system2("rm -rf", outdirp);
-    system3("mv", newoutdir, outdirp); 
+    if(!GetvLax("sgrid_options", "--keep_previous"))
+    {
+      system2("rm -rf", outdirp);
+      system3("mv", newoutdir, outdirp);
+    }
     system2("mkdir", newoutdir);
     free(outdirp);
     ncall++;
-- 
2.43.0


From 53dab629e24af651003a841e93269db58a335dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:04 +0000
Subject: [PATCH 18/63] fix: Long command line options must not overflow the
 buffer

---
 src/main/main/main.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/main/main.c b/src/main/main/main.c
index ff5d075..dfefeb7 100644
--- a/src/main/main/main.c
+++ b/src/main/main/main.c
@@ -207,10 +207,10 @@ int read_command_line(int argc, char **argv)
     int nopts, nargs;
     char argi[1000];
     char descr[1000];
-    char options[1000];
+    char *options;
     char *parfile = (char *) calloc(strlen(argv[1])+40, sizeof(char));
     char *outdir  = (char *) calloc(strlen(argv[1])+40, sizeof(char));
-    int parnamelen;
+    int parnamelen, optlen;
 
     /* determine name of parameter file and output directory */
     strcpy(parfile, argv[1]);
@@ -230,7 +230,8 @@ int read_command_line(int argc, char **argv)
 
     /* add other args */
     nargs=nopts=0;
-    options[0]=0;
+    for(optlen=1, i=2; i<argc; i++) optlen += strlen(argv[i]) + 1;
+    options = (char *) calloc(optlen, sizeof(char));
     for(i=2; i<argc; i++)
     {
       if(argv[i][0]=='-')
@@ -238,8 +239,8 @@ int read_command_line(int argc, char **argv)
         if(strlen(argv[i])==1) errorexit("- is not a valid option");
         if(argv[i][1]!='-') errorexit("all options must start with --");
         /* save all options in options */
-        if(nopts>0) strncat(options, " ", 999);
-        strncat(options, argv[i], 999);
+        if(nopts>0) strcat(options, " ");
+        strcat(options, argv[i]);
         nopts++;
       }
       else
@@ -253,6 +254,7 @@ int read_command_line(int argc, char **argv)
     /* add sgrid command line options */
     if(nopts>0) AddPar("sgrid_options", options, "sgrid command line options");
 
+    free(options);
     free(parfile);
     free(outdir);
   }
-- 
2.43.0


From d78aad1f4d7c4de2912b13ff1d7cb44fe09a274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 19/63] fix: checkpoint_additional_variables may name any
 component of a variable

---
 src/utility/checkpoint/checkpoint.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 23454ad..14e5193 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -274,8 +274,9 @@ tVarList *checkpoint_varlist(tGrid *grid)
     if (box->v[i] != 0)
       if( Getv("checkpoint_additional_variables", VarName(i)) )
       {
-        vldrop(vl, i); /* <--drop it in case it is there already */
-        vlpush(vl, i); /* <--now add it again */
+        int i0 = IndComponent0(i); /* vlpush needs index of component 0 */
+        vldrop(vl, i0); /* <--drop it in case it is there already */
+        vlpush(vl, i0); /* <--now add it again */
       }
   }
 
-- 
2.43.0


From c36086d393bc0393c850e81821862fefad3901b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 20/63] fix: Evolution needs its additional variables if we
 restart at iteration 0

---
 src/utility/evolve/evolve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/evolve/evolve.c b/src/utility/evolve/evolve.c
index 9c72799..5960c58 100644
--- a/src/utility/evolve/evolve.c
+++ b/src/utility/evolve/evolve.c
@@ -80,8 +80,9 @@ int evolve(tGrid *grid)
   u_c->grid = grid;
   u_c->time = grid->time;
 
-  /* add new variables before first time step */
-  if (grid->iteration == 0) {
+  /* add new variables before first time step (which is not at iteration 0
+     if we restarted from a checkpoint before taking any time step) */
+  if (grid->iteration == 0 || !u_p) {
     printf("Adding variables for evolution:\n");
 
     /* add additional variables */
-- 
2.43.0


From 7758f837e3a642cd2375d62d6d79ca54611bcaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 21/63] fix: Checkpoints have to contain the exact time

---
 src/utility/checkpoint/checkpoint_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 300b044..8e3282f 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -81,7 +81,7 @@ void checkpoint_write_local(tGrid *g, FILE *fp)
   /* write one line text header, check with "head -1 checkpoint.0" */
   fprintf(fp, "$BEGIN_checkpoint_header:  ");
   fprintf(fp, "$bmin = %d , $bmax = %d , ", 0, g->nboxes-1);
-  fprintf(fp, "$time = %g , ", g->time);
+  fprintf(fp, "$time = %.17g , ", g->time);
   fprintf(fp, "$iteration = %d\n", g->iteration);
   fprintf(fp, "$END_checkpoint_header\n\n");
 
-- 
2.43.0


From 4f8227d519abd90a3c0ef27eb0e6f3676d97c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 22/63] fix: checkpoint_dt smaller than a time step must not
 cause a division by zero

---
 src/utility/checkpoint/checkpoint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/checkpoint/checkpoint.c b/src/utility/checkpoint/checkpoint.c
index 14e5193..fdeda9e 100644
--- a/src/utility/checkpoint/checkpoint.c
+++ b/src/utility/checkpoint/checkpoint.c
@@ -71,9 +71,13 @@ int checkpoint(tGrid *grid)
   /* determine how often we want to checkpoint */
   dt = Getd("checkpoint_dt");
   if (dt > 0)
+  {
     di = dt/grid->dt + dequaleps;
+    if (di < 1) di = 1;  /* dt is less than one time step */
+  }
   else
     di = Geti("checkpoint_di");
+  if (di == 0) return 0;
   if(pr) printf("di = %d\n", di);
   
   /* check whether it is time to write a checkpoint */
-- 
2.43.0


From d454825c247186e62c47fe55cfc5e940ceeee15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 23/63] fix: checkpoint_interpolate_Vars_get_Pars has to work
 without additional parameters

---
 src/utility/checkpoint/read_other_checkpoints.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/read_other_checkpoints.c b/src/utility/checkpoint/read_other_checkpoints.c
index 92f2c31..66a1b03 100644
--- a/src/utility/checkpoint/read_other_checkpoints.c
+++ b/src/utility/checkpoint/read_other_checkpoints.c
@@ -83,7 +83,8 @@ void checkpoint_interpolate_Vars_get_Pars(char *filename,
   /* loop over pars in parlist */
   printf("Setting the following parameters in pdb to values from pdb2:\n");
   NextEntry(0);
-  while( (par=NextEntry(parlist)) != NULL)
+  j = strspn(parlist, " "); /* skip first space, which is there if parlist1="" */
+  while( (par=NextEntry(parlist+j)) != NULL)
   {
     /* swap parameter databases, so that we can use e.g. Gets on pdb2 */
     swap_tParameter_pointers(&pdb, &pdb2);
-- 
2.43.0


From 2bf966b22b12c2435c63f56af17e338abee31f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:03 +0000
Subject: [PATCH 24/63] fix: An incompletely written checkpoint must not
 replace the previous one

---
 src/utility/checkpoint/checkpoint_write.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/checkpoint/checkpoint_write.c b/src/utility/checkpoint/checkpoint_write.c
index 8e3282f..4ea495e 100644
--- a/src/utility/checkpoint/checkpoint_write.c
+++ b/src/utility/checkpoint/checkpoint_write.c
@@ -23,7 +23,7 @@ void checkpoint_write(tGrid *g)
   char *filename = checkpoint_filename("", "w");
   char *filename_new;
   FILE *fp;
-  int i;
+  int i, err;
 
   /* name of backup file */
   filename_new = cmalloc(strlen(filename) + 20);
@@ -43,8 +43,9 @@ void checkpoint_write(tGrid *g)
       prTimeIn_s("WallTime: ");
       checkpoint_write_local(g, fp);
 
-      /* done */
-      fclose(fp);
+      /* done, but keep old file if something could not be written */
+      err = ferror(fp);
+      if (fclose(fp) || err) errorexits("failed writing %s", filename_new);
     }
     /* everyone please wait here */
     sgrid_mpi_barrier();
-- 
2.43.0


From 8b9e1b23405eba4d82fec40e5c0637de15f94da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 25/63] fix: Runge-Kutta needs its auxiliary lists for every
 evolution if parameters are iterated

---
 src/utility/evolve/rk.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/utility/evolve/rk.c b/src/utility/evolve/rk.c
index 60a8fb8..52b375e 100644
--- a/src/utility/evolve/rk.c
+++ b/src/utility/evolve/rk.c
@@ -225,7 +225,6 @@ void evolve_rk_rk4(tGrid *grid)
 /* explicit Runge-Kutta */
 void evolve_rk(tGrid *grid) 
 {
-  static int firstcall = 1;
   tButcher *rk;
   char s[3] = "_r";
   int i;
@@ -250,14 +249,14 @@ void evolve_rk(tGrid *grid)
   if(rk == &rk4) rk->nstages = 2;
 
   /* add auxiliary fields to data base, no storage yet 
-     incrementing second letter in s gives _r, _s, _t, ... */
-  if (firstcall) {
-    firstcall = 0;
-    for (i = 0; i < rk->nstages; i++, s[1]++) 
+     incrementing second letter in s gives _r, _s, _t, ...
+     This has to be done for each evolution, since the number of stages or
+     u_c can differ if parameters are iterated. */
+  for (i = 0; i < rk->nstages; i++, s[1]++)
+    if (grid->iteration == 0 || !u_k[i])
       u_k[i] = AddDuplicate(u_c, s);
 
-    if (0) prbutchertable(rk);
-  }
+  if (0) prbutchertable(rk);
 
   // strange bug? rk4 shadows rk4a
   // printf("%s, getv %d\n", Gets("evolution_method_rk"), Getv("evolution_method_rk", "rk3"));
-- 
2.43.0


From c5cd73547e1d6ea2ef55f233747c1429636ceed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 26/63] fix: fgetparameter must not take a longer name for the
 parameter

---
 src/utility/checkpoint/wolfio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/checkpoint/wolfio.c b/src/utility/checkpoint/wolfio.c
index 65e271a..1448858 100644
--- a/src/utility/checkpoint/wolfio.c
+++ b/src/utility/checkpoint/wolfio.c
@@ -95,7 +95,9 @@ int fgetparameter(FILE *in, const char *par, char *str)
 
  while((z=FSCANF1(in,"%s",str)) !=EOF)
  {
-   if(strncmp(par, str , parlength) ==0)
+   /* str has to be par or par=..., not another name that starts with par */
+   if( strncmp(par, str , parlength) ==0 &&
+       (str[parlength]==0 || str[parlength]=='=') )
    { 
      /* check if str is of form par */
      if(parlength==strlen(str)) 
-- 
2.43.0


From 577606a2b56bc0c3f9e0ee52d44fc6b60ed3cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 27/63] fix: cheb_int must not read before its input for a
 single coefficient

---
 src/utility/Spectral/explicit_Cheb_trafos.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/Spectral/explicit_Cheb_trafos.c b/src/utility/Spectral/explicit_Cheb_trafos.c
index 1715cd0..af69d0f 100644
--- a/src/utility/Spectral/explicit_Cheb_trafos.c
+++ b/src/utility/Spectral/explicit_Cheb_trafos.c
@@ -108,8 +108,11 @@ void cheb_int(double a, double b, double c[], double cint[], int n)
     sum += fac*cint[j];
     fac = -fac;
   }
-  cint[n]=con*c[n-1]/(n);
-  sum += fac*cint[n];
+  if(n>=1)
+  {
+    cint[n]=con*c[n-1]/(n);
+    sum += fac*cint[n];
+  }
   cint[0]=2.0*sum;  /* <--arbitrary const picked as in numrec */
 }
 
-- 
2.43.0


From f40d09ba27facf1b253d6d287e4856ded765eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 28/63] fix: finiteness checks name every stretch of bad
 numbers, with its own box's data

---
 src/physics/ADMvars/CheckIfFinite.c       | 2 +-
 src/utility/NumberChecker/NumberChecker.c | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/physics/ADMvars/CheckIfFinite.c b/src/physics/ADMvars/CheckIfFinite.c
index 67e0a70..df933ea 100644
--- a/src/physics/ADMvars/CheckIfFinite.c
+++ b/src/physics/ADMvars/CheckIfFinite.c
@@ -103,8 +103,8 @@ num = 0.0;
              VarName(ivar), var[ijk_old], ijk_old,
              x[ijk_old], y[ijk_old], z[ijk_old],
              b_old, grid_old, X[ijk_old], Y[ijk_old], Z[ijk_old]);
-      messageflag=0;
     }
+    messageflag=0; /* start afresh in next box */
   }
   if(num>0)
   {
diff --git a/src/utility/NumberChecker/NumberChecker.c b/src/utility/NumberChecker/NumberChecker.c
index 92a6358..dbb0c1e 100644
--- a/src/utility/NumberChecker/NumberChecker.c
+++ b/src/utility/NumberChecker/NumberChecker.c
@@ -96,6 +96,15 @@ num = 0.0;
         messageflag=0;
       }
     }
+    if(messageflag>1)
+    {
+      printf("NAN/INF: %s=%g til    %d: x=%g y=%g z=%g "
+             "box%d grid=%p X=%g Y=%g Z=%g\n",
+             VarName(ivar), var[ijk_old], ijk_old,
+             x[ijk_old], y[ijk_old], z[ijk_old],
+             b_old, grid_old, X[ijk_old], Y[ijk_old], Z[ijk_old]);
+    }
+    messageflag=0; /* start afresh in next box */
   }
   if(num>0)
   {
-- 
2.43.0


From c2df1a6a5ca884f64f7a3ed318bdb095ab3199ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 29/63] fix: output at multiples of a time interval halfway
 between iterations was missed or doubled by rounding

---
 src/utility/output/output.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/utility/output/output.c b/src/utility/output/output.c
index 4e3a4a7..fd4be27 100644
--- a/src/utility/output/output.c
+++ b/src/utility/output/output.c
@@ -26,8 +26,9 @@ int timeforoutput_di_dt(tGrid *grid, int di, double dt)
   if(dt > 0)
   {
     int i = (0.5 + Time/dt); /* (Time + dequaleps)/dt; */
+    double eps = 1e-6*dT; /* so that rounding errors do not matter */
     /* if(dequal(Time-i*dt, 0)) */
-    if( Time-i*dt > -0.5*dT && Time-i*dt <= 0.5*dT )
+    if( Time-i*dt > -0.5*dT+eps && Time-i*dt <= 0.5*dT+eps )
       return i + 1;
   }
     
@@ -276,13 +277,12 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
-      while(sscanf(ou[0]+start, "%s", str)==1)
+      while(sscanf(ou[0]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[0][start]==' ') start++;
+        start += len;
   
         /* check if str has an index that exists */
         vi = IndLax(str);
@@ -314,14 +314,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
       //printf("1dout ... |%s|\n", ou[1]);
-      while(sscanf(ou[1]+start, "%s", str)==1)
+      while(sscanf(ou[1]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[1][start]==' ') start++;
+        start += len;
         //printf("1dout |%s|\n",str);
   
         /* check if str has an that index exists */
@@ -354,14 +353,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
       //printf("2dout ... |%s|\n", ou[2]);
-      while(sscanf(ou[2]+start, "%s", str)==1)
+      while(sscanf(ou[2]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[2][start]==' ') start++;
+        start += len;
         //printf("2dout |%s|\n", str);
         
         /* check if str has an index that exists */
@@ -394,14 +392,13 @@ int write_grid(tGrid *grid)
     {
       tBox *box = grid->box[b];
       char str[1000];
-      int start=0;
+      int start=0, len;
       int vi;
 
       //printf("3dout ... |%s|\n", ou[3]);
-      while(sscanf(ou[3]+start, "%s", str)==1)
+      while(sscanf(ou[3]+start, "%s%n", str, &len)==1)
       {
-        start += strlen(str);
-        if(ou[3][start]==' ') start++;
+        start += len;
         //printf("3dout |%s|\n", str);
         
         /* check if str has an index that exists */
-- 
2.43.0


From c5f82617c68cd747530217356a87eee971846191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 30/63] fix: 0d output with sums instead of integrals gave
 neither rms nor mean

---
 src/utility/output/output0d.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utility/output/output0d.c b/src/utility/output/output0d.c
index 96b6723..3dc45a8 100644
--- a/src/utility/output/output0d.c
+++ b/src/utility/output/output0d.c
@@ -23,15 +23,16 @@ void output0d_value(char *filename, double time, double val)
 }
 
 
-/* L2 Norm of var array over box */
-double L2Norm_over_box_as_VolInt(tBox *box, double *u, double *U)
+/* average of var array over all points of box, i.e. the sum over all
+   points divided by their number. If u is a square, its root is the L2 norm */
+double PointAverage_over_box_as_VolInt(tBox *box, double *u, double *U)
 {
   double sum=0;
   int i, n=0;
   double ret;
 
-  forallpoints(box,i) { sum += u[i]*u[i];  n++; }
-  ret = sqrt(sum/n);
+  forallpoints(box,i) { sum += u[i];  n++; }
+  ret = sum/n;
   forallpoints(box,i) U[i] = ret; /* only needed for compatibility with spec_3dIntegral */
   return ret;
 }
@@ -102,7 +103,7 @@ void output0d_boxvar(tBox *box, char *name)
   }
   else /* just use sums instead of integrals */
   {
-    VolIntegral = L2Norm_over_box_as_VolInt;
+    VolIntegral = PointAverage_over_box_as_VolInt;
     forallpoints(box ,i) VolJac[i] = 1.0;
   }
           
-- 
2.43.0


From 9a6c8dfe4f0f97af783fb55c7dfb50413a9d4b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 31/63] fix: floatdiff reported equal words nan and inf as
 differences

---
 utilities/floatdiff.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/floatdiff.c b/utilities/floatdiff.c
index fd0e2a8..24ddca4 100644
--- a/utilities/floatdiff.c
+++ b/utilities/floatdiff.c
@@ -302,6 +302,8 @@ int main(int argc, char *argv[])
       exerr++;
       break;
      }
+     /* equal words are no difference, even if they are nan or inf */
+     if(strcmp(substr1,substr2)==0) continue;
      x1=atof(substr1);
      x2=atof(substr2);
      if(x1==0.0 && x2==0.0) continue;
-- 
2.43.0


From b7df40bea9efcfccbeead04f948bac1637ba1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 32/63] fix: sgrid3d_to_1d/2d overran their buffer if a later
 block was bigger

---
 utilities/sgrid3d_to_1d.c | 2 +-
 utilities/sgrid3d_to_2d.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/sgrid3d_to_1d.c b/utilities/sgrid3d_to_1d.c
index b4dbe4e..b236674 100644
--- a/utilities/sgrid3d_to_1d.c
+++ b/utilities/sgrid3d_to_1d.c
@@ -77,7 +77,7 @@ int main(int argc, char **argv)
     fscanline(file, str); /* read til end of line */
     
     /* read the actual data */
-    if(data==NULL) data = calloc(npoints, sizeof(data));
+    data = realloc(data, npoints*sizeof(*data));
     fread(data, sizeof(*data), npoints, file);
   
     if(mode==1)      lm=n1;
diff --git a/utilities/sgrid3d_to_2d.c b/utilities/sgrid3d_to_2d.c
index 6983992..355833d 100644
--- a/utilities/sgrid3d_to_2d.c
+++ b/utilities/sgrid3d_to_2d.c
@@ -77,7 +77,7 @@ int main(int argc, char **argv)
     fscanline(file, str); /* read til end of line */
     
     /* read the actual data */
-    if(data==NULL) data = calloc(npoints, sizeof(data));
+    data = realloc(data, npoints*sizeof(*data));
     fread(data, sizeof(*data), npoints, file);
   
     if(mode==1)      { l1m=n1;  l2m=n2; }
-- 
2.43.0


From 561b49d4558399e115ab6b2ca0a611b875ed9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 33/63] fix: use the polar angle in the derivatives of rho of
 PolarCE coordinates

---
 src/utility/Coordinates/Coordinates.c | 20 ++++++++++++++++++--
 src/utility/Coordinates/Coordinates.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates.c b/src/utility/Coordinates/Coordinates.c
index 40e8009..7894bff 100644
--- a/src/utility/Coordinates/Coordinates.c
+++ b/src/utility/Coordinates/Coordinates.c
@@ -126,8 +126,8 @@ int init_CoordTransform_And_Derivs(tGrid *grid)
       box->x_of_X[2] = y_ofPolarCE;
       box->x_of_X[3] = z_equals_Z;
 
-      box->dX_dx[1][1] = drho_dx;
-      box->dX_dx[1][2] = drho_dy;
+      box->dX_dx[1][1] = drhoPolarCE_dx;
+      box->dX_dx[1][2] = drhoPolarCE_dy;
       box->dX_dx[1][3] = zero_of_xyz;
       box->dX_dx[2][1] = dYPolarCE_dx;
       box->dX_dx[2][2] = dYPolarCE_dy;
@@ -1301,6 +1301,22 @@ double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z)
 /* first coord. derivs */
 /* NOTE: Y = PI*( 1.0 - cos( ((N-1.0)/(2.0*N)) * phi ) )             */
 /* dY/dphi = PI*((N-1.0)/(2.0*N)) * sin( ((N-1.0)/(2.0*N)) * phi )   */
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dx(aux,ind, rho, phi, Z);
+}
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z)
+{
+  tBox *box = (tBox *) aux;
+  int N = box->n2 - 1;
+  double phi = ((2.0*N)/(N-1.0)) * acos( 1.0 - Y/PI );
+
+  return drho_dy(aux,ind, rho, phi, Z);
+}
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z)
 {
   tBox *box = (tBox *) aux;
diff --git a/src/utility/Coordinates/Coordinates.h b/src/utility/Coordinates/Coordinates.h
index a22f6eb..37c3b3b 100644
--- a/src/utility/Coordinates/Coordinates.h
+++ b/src/utility/Coordinates/Coordinates.h
@@ -77,6 +77,8 @@ double dphi_dydy(void *aux, int ind, double rho, double phi, double Z);
 /* PolarCE coordinates: */
 double x_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
 double y_ofPolarCE(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
+double drhoPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dx(void *aux, int ind, double rho, double Y, double Z);
 double dYPolarCE_dy(void *aux, int ind, double rho, double Y, double Z);
 
-- 
2.43.0


From e24efeb3a53bf60381f853e88a6fc6fd49f34aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 34/63] fix: populate_bfaces: points that lie on a line of the
 other face share only its normal coordinate

---
 src/utility/Coordinates/populate_bfaces_AR.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utility/Coordinates/populate_bfaces_AR.c b/src/utility/Coordinates/populate_bfaces_AR.c
index cca9783..40fbdcc 100644
--- a/src/utility/Coordinates/populate_bfaces_AR.c
+++ b/src/utility/Coordinates/populate_bfaces_AR.c
@@ -249,6 +249,11 @@ static unsigned int check_sameXYZ(FLAG_T kind,tBface *bface)
   else if (kind == SAME_Z)
     slice = 2;
 
+  /* the points on the other side of this face share with it only the
+     coord that is constant on the face */
+  if (slice != bface->f/2)
+    return 0;
+
   for (i = 1; i < m ; i++)
   {
     double X[3];
-- 
2.43.0


From 73b9fb026c7711fef887150415021ad7bf6aae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 35/63] fix: cubed spheres: weight of the poles in the Ylm
 coefficients of a surface

---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index 28e20a1..bd93b7b 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -342,7 +342,7 @@ int FSurf_CubSph_get_Ylm_integrals(tBox *box, int s, int Re_vind, int Im_vind,
     for(m=0; m<=l; m++, i++) /* here we set only integrands for m>=0 */
     {
       double R,I, RYlm,IYlm, A,B;
-      double Theta,Phi, dThetadA,dThetadB, dPhidA,dPhidB, Jac, fac;
+      double fac;
 
       /* get A,B and Re, Im part of data at surface where i=s */
       ijk=Index(s,j,k);
@@ -354,13 +354,10 @@ int FSurf_CubSph_get_Ylm_integrals(tBox *box, int s, int Re_vind, int Im_vind,
 
       /* We need to compute \int d\phi d\theta \sin(theta) (Y_l^m)^* var .
          Later we actually compute  \int dA dB (Integ).
-         Now \int d\phi d\theta \sin(theta) = \int dA dB Jac
-         So we need to multiply by the Jacobian  */
-      /* get Theta, Phi and their derivs */
-      ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
-                                         &dThetadA,&dThetadB, &dPhidA,&dPhidB);
-      Jac = fabs(dThetadA*dPhidB - dThetadB*dPhidA); /* Jacobian */
-      fac = Jac * sin(Theta);
+         Now \int d\phi d\theta \sin(theta) = \int dA dB fac
+         with  fac = 1/(1+A^2+B^2)^{3/2},  also on the poles at A=B=0 */
+      fac = 1. + A*A + B*B;
+      fac = 1./(fac*sqrt(fac));
       R = R * fac;
       I = I * fac;
       
-- 
2.43.0


From 93dfc4f6062a67908dc5424bea8378198af4a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 36/63] fix: bfaces: same_fpts only if both point lists are
 equally long

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index 596d8fa..b3f9e83 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -1116,7 +1116,8 @@ int set_bits_in_all_bfaces(tGrid *grid)
       }
 
       /* now check if ofpts is the same as obface->fpts */
-      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b])
+      if(ofpts->npoints[obox->b] == obface->fpts->npoints[obox->b] &&
+         ofpts->npoints[obox->b] == fpts->npoints[box->b])
       {
         /* make an intList point at the list in obface->fpts */
         ilist->n = obface->fpts->npoints[obox->b];
-- 
2.43.0


From f2dca5cf95ecc593e77cbebdf4deeb5a45c6c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 37/63] fix: cubed spheres: derivatives of a surface at a pole
 that is off by roundoff

---
 src/utility/Coordinates/FSurf_CubedSpheres.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/FSurf_CubedSpheres.c b/src/utility/Coordinates/FSurf_CubedSpheres.c
index bd93b7b..376ff6a 100644
--- a/src/utility/Coordinates/FSurf_CubedSpheres.c
+++ b/src/utility/Coordinates/FSurf_CubedSpheres.c
@@ -99,8 +99,9 @@ void FSurf_CubSph_sigma01_derivs(tBox *box, int si, double A, double B,
   /* regularize case where A=B=0 <==> Theta=0:
      Note for Theta=0 we cannot use sin(Theta) d/dTheta Ylm
      to find d/dTheta Ylm. Also dPhidA blows up!!!
-     So for now just add epsilon to B. */
-  if(A==0. && B==0.) B = 1e-10;
+     So for now just add epsilon to B. The middle of a Chebyshev grid
+     is often off by roundoff, so we check for small A and B. */
+  if(fabs(A)<1e-10 && fabs(B)<1e-10) B = 1e-10;
 
   /* get Theta,Phi and their derivs from A,B */
   ThetaPhi_dThetaPhidAB_of_AB_CubSph(box, A,B, &Theta,&Phi,
-- 
2.43.0


From a3cc2a89c7f44a132d166cb021447b9b15a092ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 38/63] fix: find points on both sides of the seam of an
 angular coordinate

Newton started from a grid point can end at an angle of -0.1 instead of
2PI-0.1, and the point search then reported that the point is in no box.
---
 src/utility/Coordinates/findXYZ_of_xyz.c | 34 ++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 9c7b7d1..78b562b 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -43,6 +43,39 @@ void xyz_VectorFuncP(int n, double *XYZvec, double *fvec, void *p)
   //printf("%g,%g,%g  xg,yg,zg=%g,%g,%g\n", fvec[1],fvec[2],fvec[3], xg,yg,zg);
 }
 
+/* If X,Y,Z are outside the box, e.g. because an angle in [0,2PI] came out as
+   -0.1, move them into the box by multiples of the box length, provided that
+   we thereby get the same x,y,z. */
+static void moveXYZ_into_periodic_box(tBox *box, double XYZvec[4])
+{
+  double V[4], err, r;
+  int d, moved=0;
+
+  for(d=1; d<=3; d++)
+  {
+    double X0 = box->bbox[2*(d-1)];
+    double X1 = box->bbox[2*(d-1)+1];
+    V[d] = XYZvec[d];
+    if(finit(V[d]) && (dless(V[d],X0) || dless(X1,V[d])))
+    {
+      V[d] = V[d] - floor((V[d]-X0)/(X1-X0)) * (X1-X0);
+      moved = 1;
+    }
+  }
+  if(!moved) return;
+
+  err = r = 0.0;
+  for(d=1; d<=3; d++)
+  {
+    double x = box->x_of_X[d]((void *) box, -1, XYZvec[1],XYZvec[2],XYZvec[3]);
+    double y = box->x_of_X[d]((void *) box, -1, V[1],V[2],V[3]);
+    err = err + fabs(y-x);
+    r   = r + fabs(x);
+  }
+  if(err <= dequaleps*r)
+    for(d=1; d<=3; d++) XYZvec[d] = V[d];
+}
+
 /* find X,Y,Z from x,y,z (Note: X,Y,Z also contains initial guess) */
 int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
                 double x, double y, double z)
@@ -129,6 +162,7 @@ int XYZ_of_xyz(tBox *box, double *X, double *Y, double *Z,
   /* do newton_linesrch_itsP iterations: */
   stat = newton_linesrch_itsP(XYZvec, 3, &check, xyz_VectorFuncP, (void *) pars,
                               Geti("Coordinates_newtMAXITS"), tol);
+  moveXYZ_into_periodic_box(box, XYZvec);
   *X = XYZvec[1];
   *Y = XYZvec[2];
   *Z = XYZvec[3];
-- 
2.43.0


From 867abdadd08805fe2f8017338e24585acef82387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:36 +0000
Subject: [PATCH 39/63] fix: do not take a point search that ended in NaN as a
 success

---
 src/utility/Coordinates/findXYZ_of_xyz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/Coordinates/findXYZ_of_xyz.c b/src/utility/Coordinates/findXYZ_of_xyz.c
index 78b562b..adb1d07 100644
--- a/src/utility/Coordinates/findXYZ_of_xyz.c
+++ b/src/utility/Coordinates/findXYZ_of_xyz.c
@@ -336,6 +336,7 @@ int b_XYZ_of_xyz(tGrid *grid, double *X, double *Y, double *Z,
     X1=*X; Y1=*Y; Z1=*Z;
     stat = XYZ_of_xyz(box, &X1,&Y1,&Z1, x,y,z);
     if(stat<0) continue;
+    if(!finit(X1) || !finit(Y1) || !finit(Z1)) continue;
     if(dless(X1,box->bbox[0]) || dless(box->bbox[1],X1)) continue;
     if(dless(Y1,box->bbox[2]) || dless(box->bbox[3],Y1)) continue;
     if(dless(Z1,box->bbox[4]) || dless(box->bbox[5],Z1)) continue;
@@ -372,9 +373,8 @@ int b_XYZ_of_xyz_inboxlist(tGrid *grid, int *blist, int nb,
     X1=*X; Y1=*Y; Z1=*Z;
     stat = XYZ_of_xyz(box, &X1,&Y1,&Z1, x,y,z);
 
-//if(!finit(X1) || !finit(Y1) || !finit(Z1))
-//errorexit("not finite");
     if(stat<0) continue;
+    if(!finit(X1) || !finit(Y1) || !finit(Z1)) continue;
     if(dless(X1,box->bbox[0]) || dless(box->bbox[1],X1)) continue;
     if(dless(Y1,box->bbox[2]) || dless(box->bbox[3],Y1)) continue;
     if(dless(Z1,box->bbox[4]) || dless(box->bbox[5],Z1)) continue;
-- 
2.43.0


From e97ab2eb36869281f7563d5d46e34541afed3013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 40/63] fix: set inter-box conditions also at points that are
 out of range by round-off

At points on the edge of the other face, oX,oY,oZ can be off by 1e-16. Such
points were skipped, so that no condition was set there.
---
 src/utility/boundary/BCs_from_bfaces.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utility/boundary/BCs_from_bfaces.c b/src/utility/boundary/BCs_from_bfaces.c
index b08ef69..15761f4 100644
--- a/src/utility/boundary/BCs_from_bfaces.c
+++ b/src/utility/boundary/BCs_from_bfaces.c
@@ -473,8 +473,13 @@ void FPsi_2Dinterp_for_bface(int iFPsi, tBface *bface, int plN,
     double Pinterp[4], n[4];
 
     /* skip point if C1 or C2 are out of their range */
-    if(C1<rangeC1[0] || C1>rangeC1[1]) continue;
-    if(C2<rangeC2[0] || C2>rangeC2[1]) continue;
+    if(dless(C1,rangeC1[0]) || dless(rangeC1[1],C1)) continue;
+    if(dless(C2,rangeC2[0]) || dless(rangeC2[1],C2)) continue;
+    /* move C1 and C2 inside if they are out of range due to round-off */
+    if(C1<rangeC1[0]) C1=rangeC1[0];
+    if(C1>rangeC1[1]) C1=rangeC1[1];
+    if(C2<rangeC2[0]) C2=rangeC2[0];
+    if(C2>rangeC2[1]) C2=rangeC2[1];
 
     if(bface->setnormalderiv == 0)
     {
-- 
2.43.0


From 6a6325f6fbf043239a8bbf21bff3eb3e732a671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 41/63] fix: report convergence of bicgstab by the true
 residual

---
 src/utility/GridIterators/bicgstab.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utility/GridIterators/bicgstab.c b/src/utility/GridIterators/bicgstab.c
index e8cc0ae..c3c7133 100644
--- a/src/utility/GridIterators/bicgstab.c
+++ b/src/utility/GridIterators/bicgstab.c
@@ -154,6 +154,24 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   VLDisableFree(t);
   VLDisableFree(v);
 
+  /* success? (even if omega is still 0, because the early check was met) */
+  if (*normres <= tol)
+  {
+    /* r was updated recursively and may have drifted away from b - A x */
+    lop(r, x, c1, c2);
+    for (j = 0; j < r->n; j++)
+      forallboxes(grid,boxi)
+      {
+        tBox *box = grid->box[boxi];
+        double *rp = vlldataptr(r, box, j);
+        double *bp = vlldataptr(b, box, j);
+        forallpoints(box,i) rp[i] = bp[i] - rp[i];
+      }
+    *normres = norm2(r);
+    if (*normres <= tol) return ii+1;
+    return itmax+1;
+  }
+
   /* iteration failed */
   if (ii > itmax) return -1;
 
@@ -161,7 +179,7 @@ int bicgstab(tVarList *x, tVarList *b, tVarList *r, tVarList *c1,tVarList *c2,
   if (fabs(rho) < rhotol) return -10;
   if (fabs(omega) < omegatol) return -11;
 
-  /* success! */
+  /* too many iterations */
   return ii+1;
 }
 
-- 
2.43.0


From 8efa9fd1e6373c177203af7a5da74c42b4a86aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 42/63] fix: SuiteSparseQR reports singular matrices instead of
 passing off a solution

---
 src/utility/LinAlg/SuiteSparseQR_C_interface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/LinAlg/SuiteSparseQR_C_interface.c b/src/utility/LinAlg/SuiteSparseQR_C_interface.c
index 4b9a550..5ad6946 100644
--- a/src/utility/LinAlg/SuiteSparseQR_C_interface.c
+++ b/src/utility/LinAlg/SuiteSparseQR_C_interface.c
@@ -229,6 +229,9 @@ int SuiteSparseQR_solve_fromAcolumns(tSparseVector **Acol,
   /* Solve, i.e. in matlab notation do: X = A\B */
   X = SuiteSparseQR_C_backslash_default(A, B, cc);
   INFO=cc->status;
+  /* SPQR_istat[4] is the estimated rank. If A is rank deficient, X is only a
+     least squares solution, but cc->status is CHOLMOD_OK, so warn ourselves */
+  if(INFO==CHOLMOD_OK && cc->SPQR_istat[4] < nlines) INFO=CHOLMOD_DSMALL;
   if(pr)
   { 
     cholmod_l_print_dense(X, "X", cc);
-- 
2.43.0


From 20a9d95e6502728f1be2f02b5f2bd8df70755536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 43/63] fix: initialise UMFPACK objects that are not created
 for empty matrices

---
 src/utility/LinAlg/umfpack_dl_interface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/LinAlg/umfpack_dl_interface.c b/src/utility/LinAlg/umfpack_dl_interface.c
index ee59e3f..e0c39ee 100644
--- a/src/utility/LinAlg/umfpack_dl_interface.c
+++ b/src/utility/LinAlg/umfpack_dl_interface.c
@@ -434,7 +434,8 @@ int umfpack_dl_numeric_from_tUMFPACK_A(tUMFPACK_A *umfpackA,
 
 #ifdef UMFPACK
   double *null = (double *) NULL;
-  void *Symbolic, *Numeric;
+  void *Symbolic = NULL; /* stays NULL if umfpack_dl_symbolic fails, */
+  void *Numeric = NULL;  /* e.g. because the matrix is empty */
 
   /* call umfpack routine */
   INFO1=umfpack_dl_symbolic(nrows, nrows,
-- 
2.43.0


From c6735defc48f294ad98b2947ec81e45c9acab624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 44/63] fix: newton_linesearch sets check if it got stuck far
 away from a root

---
 src/utility/numerics/newton_linesearch.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index a0db34c..d763d63 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -48,6 +48,7 @@ void linesrchP(int n, double xold[], double fold, double g[], double p[],
    Then newton_linesearch will find x s.t. vecfuncP = 0.               */
 #define TOLMIN 1.0e-13
 #define TOLX 1.0e-14
+#define TOLP 1.0e-10
 #define STPMX 100.0
 int newton_linesearch(int n, double x[], int *check,
                       void (*vecfuncP)(int n, double x[], double f[],
@@ -56,7 +57,7 @@ int newton_linesearch(int n, double x[], int *check,
 {
   int i,j, ret;
   int its=0; /* no iterations yet */
-  double f,fold, stpmax, sum,temp,test;
+  double f,fold, stpmax, sum,temp,test, pmax;
   int *p_idx;
   double (*fjac)[n];
   double *g, *p, *xold, *newton_linesrch_fvec;
@@ -166,6 +167,12 @@ int newton_linesearch(int n, double x[], int *check,
       ret = its;
       goto finalize;
     }
+    /* size of the Newton step, without any backtracking */
+    for(pmax=0.0, i=0; i<n; i++)
+    {
+      temp = fabs(p[i])/fmax(fabs(x[i]),1.0);
+      if(temp > pmax) pmax = temp;
+    }
     if(*check)
     {
       double denom = fmax(f,0.5*n);
@@ -175,7 +182,9 @@ int newton_linesearch(int n, double x[], int *check,
         temp = fabs(g[i])*fmax(fabs(x[i]),1.0)/denom;
         if(temp > test) test = temp;
       }
-      *check=(test < TOLMIN ? 1 : 0);
+      /* Without a decrease along the Newton step we have a root to within
+         roundoff only if the whole step is tiny. Otherwise we are stuck. */
+      *check=(test < TOLMIN || j || !(pmax < TOLP) ? 1 : 0);
       ret = its;
       goto finalize;
     }
@@ -187,6 +196,7 @@ int newton_linesearch(int n, double x[], int *check,
     }
     if(test < TOLX)
     {
+      *check=(j || !(pmax < TOLP) ? 1 : 0);
       ret = its;
       goto finalize;
     }
@@ -206,6 +216,7 @@ finalize:
 }
 #undef TOLMIN
 #undef TOLX
+#undef TOLP
 #undef STPMX
 
 
-- 
2.43.0


From d0b6b330c4738725a774d5b7c33f4353245f3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 45/63] fix: end the line search of newton_linesearch if the
 step is not finite

---
 src/utility/numerics/newton_linesearch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/newton_linesearch.c b/src/utility/numerics/newton_linesearch.c
index d763d63..3e0e10e 100644
--- a/src/utility/numerics/newton_linesearch.c
+++ b/src/utility/numerics/newton_linesearch.c
@@ -326,7 +326,7 @@ void linesrchP(int n, double xold[], double fold,
   {
     for(i=0;i<n;i++) x[i]=xold[i]+alam*p[i];
     *f=(*func)(n, x, newton_linesrch_fvec, vecfunc, par, vecfunc_ilow);
-    if(alam < alamin)
+    if(alam <= alamin)
     {
       for(i=0;i<n;i++) x[i] = xold[i];
       *check = 1;
-- 
2.43.0


From c822a43361906e524c8913465bde1fc30145d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 46/63] fix: keep the last step of minbrent_brak between its
 iterations

---
 src/utility/numerics/minbrent_brak.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/numerics/minbrent_brak.c b/src/utility/numerics/minbrent_brak.c
index c452d8e..29e7682 100644
--- a/src/utility/numerics/minbrent_brak.c
+++ b/src/utility/numerics/minbrent_brak.c
@@ -25,7 +25,7 @@ int minbrent_brak(double (*f)(double x, void *p), void *par,
 {
   double a,b;
   double fu,fv,fw,fx, u,v,w,x;
-  double e;
+  double d,e;
   int iter;
 
   /* order a,b */
@@ -37,10 +37,10 @@ int minbrent_brak(double (*f)(double x, void *p), void *par,
   fx = fw = fv = (*f)(x, par);
 
   /* do iterations */
-  e = 0.;
+  d = e = 0.;
   for(iter=1; iter<=maxits; iter++)
   {
-    double d, etemp,p,q,r;
+    double etemp,p,q,r;
     double xm = 0.5*(a+b);
     double tol1 = tol*fabs(x) + ZERO_EPS;
     double tol2 = 2.*tol1;
-- 
2.43.0


From 6db10ca6d6a653fac65bb4b76ea21e39e8fdf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 47/63] fix: end min_brak if the function is NAN

---
 src/utility/numerics/minbrent_brak.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/numerics/minbrent_brak.c b/src/utility/numerics/minbrent_brak.c
index 29e7682..9a13453 100644
--- a/src/utility/numerics/minbrent_brak.c
+++ b/src/utility/numerics/minbrent_brak.c
@@ -116,7 +116,10 @@ int minbrent_brak(double (*f)(double x, void *p), void *par,
 #undef ZERO_EPS
 
 
-/* find a bracket for a min */
+/* find a bracket for a min
+   returns iter>0    if ok,     iter = number of iterations done
+   you need to check if iter>maxits !!!
+   returns <0        if func is NAN somewhere */
 #define GLIMIT 100.0
 #define TINY 1.0e-20
 int min_brak(double (*func)(double x, void *p), void *par,
@@ -140,6 +143,7 @@ int min_brak(double (*func)(double x, void *p), void *par,
   for(iter=1; iter<=maxits; iter++)
   {
     if(*fb <= *fc) break;
+    if(!(*fb > *fc)) return -iter; /* there are NANs */
 
     r = (*bx-*ax)*(*fb-*fc);
     q = (*bx-*cx)*(*fb-*fa);
-- 
2.43.0


From cbb40a3ddcba1c3bef44cca7c9ebe4cc97822ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 48/63] fix: return the status from zbrac_P

---
 src/utility/numerics/NumericUtils_shims.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/numerics/NumericUtils_shims.c b/src/utility/numerics/NumericUtils_shims.c
index 80129d6..960bfff 100644
--- a/src/utility/numerics/NumericUtils_shims.c
+++ b/src/utility/numerics/NumericUtils_shims.c
@@ -62,7 +62,7 @@ int WT_newton(double *x, int n, int *check,
 int zbrac_P(double (*func)(double,void *par), double *x1, double *x2,
             void *par)
 {
-  rt_brak(func,par, x1,x2, 50);
+  return rt_brak(func,par, x1,x2, 50);
 }
 
 /* old way of finding root in bracket [x1,x2] */
-- 
2.43.0


From 113f21e9946ef202f5c219fdea42463cda03829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 49/63] fix: end min_brak if there is no minimum

---
 src/utility/numerics/minbrent_brak.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utility/numerics/minbrent_brak.c b/src/utility/numerics/minbrent_brak.c
index 9a13453..b1c87ab 100644
--- a/src/utility/numerics/minbrent_brak.c
+++ b/src/utility/numerics/minbrent_brak.c
@@ -4,6 +4,8 @@
 #include <stdio.h>
 #include <math.h>
 
+#include "numerics.h"
+
 #define A_WITH_SIGNOF_B(A,B) ((B)>=0. ? fabs(A) : -fabs(A))
 #define MOVE4(a,b,c,d) (a)=(b);(b)=(c);(c)=(d);
 
@@ -119,7 +121,7 @@ int minbrent_brak(double (*f)(double x, void *p), void *par,
 /* find a bracket for a min
    returns iter>0    if ok,     iter = number of iterations done
    you need to check if iter>maxits !!!
-   returns <0        if func is NAN somewhere */
+   returns <0        if func is NAN somewhere, or has no min */
 #define GLIMIT 100.0
 #define TINY 1.0e-20
 int min_brak(double (*func)(double x, void *p), void *par,
@@ -142,6 +144,8 @@ int min_brak(double (*func)(double x, void *p), void *par,
 
   for(iter=1; iter<=maxits; iter++)
   {
+    if(!finit(*cx)) return -iter; /* there is no min up to infinity */
+    if(!(*fb <= *fa)) return -iter; /* there are NANs */
     if(*fb <= *fc) break;
     if(!(*fb > *fc)) return -iter; /* there are NANs */
 
-- 
2.43.0


From 72ed219b805e3705e6c944e08bb6037eb9fa1457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 50/63] fix: integrate backwards and set the status in
 odeintegrate with GSL

---
 src/utility/numerics/GSL_odeint.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utility/numerics/GSL_odeint.c b/src/utility/numerics/GSL_odeint.c
index 8348510..3f7dd5f 100644
--- a/src/utility/numerics/GSL_odeint.c
+++ b/src/utility/numerics/GSL_odeint.c
@@ -21,6 +21,9 @@ int GSL_odeint(double *xs, double xe, int n, double *y,
 {
   int stat;
 
+  /* hstart needs the sign of the integration direction */
+  if((xe-*xs)*hstart < 0.) hstart = -hstart;
+
   gsl_odeiv2_system sys = { derivsP, NULL, n, pars };
   gsl_odeiv2_driver *drv;
 
@@ -125,6 +128,7 @@ double odeintegrate(double y[], int nvar, double x1, double x2,
   xe = x2;
   stat = GSL_odeint_rk8pd(&xs, xe, nvar, y+1, Shim_derivs_to_derivsP,par,
                           h1, eps, eps);
+  if(stat != G_SUCCESS) *status = -1; /* xe was not reached */
   xf = xs; /* save final x */
 
   //printf("xs=%g xf=%g xe=%g\n ", xs, xf, xe);
@@ -148,7 +152,7 @@ double odeintegrate(double y[], int nvar, double x1, double x2,
       *kcount = *kcount + 1;
 
       //printf("     xs=%g xe=%g\n ", xs,xe);
-      if(xs<xe) break;
+      if(xs!=xe) break;
     }
   }
   //printf("kmax=%d *kcount=%d\n", kmax, *kcount);
@@ -205,6 +209,7 @@ double odeintegrateP(double y[], int nvar, double x1, double x2,
   xe = x2;
   stat = GSL_odeint_rk8pd(&xs, xe, nvar, y+1, Shim_derivsP_y_to_ym1,shim,
                           h1, eps, eps);
+  if(stat != G_SUCCESS) *status = -1; /* xe was not reached */
   xf = xs; /* save final x */
 
   //printf("xs=%.17g xf=%.17g xe=%.17g\n ", xs, xf, xe);
@@ -231,7 +236,7 @@ double odeintegrateP(double y[], int nvar, double x1, double x2,
 
       //printf("     xs=%.17g xe=%.17g\n ", xs,xe);
       //printf("     y[2]=%g\n", y[2]);
-      if(xs<xe) break;
+      if(xs!=xe) break;
     }
   }
   //printf("kmax=%d *kcount=%d\n", kmax, *kcount);
-- 
2.43.0


From 0002905ee5115fa5f78236f9ff34c8523442f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 51/63] fix: pivot index in LU decomposition if there are NANs

---
 src/utility/NumericUtils/ludcmp.c | 2 ++
 src/utility/numerics/lu.c         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/utility/NumericUtils/ludcmp.c b/src/utility/NumericUtils/ludcmp.c
index fa8cca0..c587219 100644
--- a/src/utility/NumericUtils/ludcmp.c
+++ b/src/utility/NumericUtils/ludcmp.c
@@ -27,6 +27,7 @@ void ludcmp(double **a, int n, int *indx, double *d)
 			a[i][j]=sum;
 		}
 		big=0.0;
+		imax=j; /* there may be NANs */
 		for (i=j;i<=n;i++) {
 			sum=a[i][j];
 			for (k=1;k<j;k++)
@@ -103,6 +104,7 @@ int ludcmpSing(double **a, int n, int *indx, double *d)
 			a[i][j]=sum;
 		}
 		big=0.0;
+		imax=j; /* there may be NANs */
 		for (i=j;i<=n;i++) {
 			sum=a[i][j];
 			for (k=1;k<j;k++)
diff --git a/src/utility/numerics/lu.c b/src/utility/numerics/lu.c
index 418c6bd..67cdf95 100644
--- a/src/utility/numerics/lu.c
+++ b/src/utility/numerics/lu.c
@@ -76,6 +76,7 @@ int lu_decomp(int n, double A[][n], int *p_idx, int *parity)
     }
 
     big=0.;
+    imax=j; /* there may be NANs */
     for(i=j; i<n; i++)
     {
       sum=A[i][j];
-- 
2.43.0


From 32d1ff5d284526a57df860a40ae79303c2ae9411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 52/63] fix: do not read past the multipole range in
 SphHarm_sin_theta_dtheta_forRealFunc

---
 src/utility/Spectral/SphericalHarmonics.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/utility/Spectral/SphericalHarmonics.c b/src/utility/Spectral/SphericalHarmonics.c
index 02ef816..e3296b0 100644
--- a/src/utility/Spectral/SphericalHarmonics.c
+++ b/src/utility/Spectral/SphericalHarmonics.c
@@ -312,10 +312,18 @@ void SphHarm_sin_theta_dtheta_forRealFunc(double *c, double *csdth, int lmax)
       elp1m = elp1m/( (lp1_2 + 1)*(lp1_2 - 1) );
       elp1m = sqrt(elp1m);
 
-      Rclp1 = c[i+lp1_2];
-      Iclp1 = c[i+lp1_2+1];
-      Rclm1 = c[i-l_2];
-      Iclm1 = c[i-l_2+1];
+      /* c_{l+1}^m = 0 if l=lmax, and c_{l-1}^m = 0 if l=m */
+      Rclp1 = Iclp1 = Rclm1 = Iclm1 = 0.;
+      if(l<lmax)
+      {
+        Rclp1 = c[i+lp1_2];
+        Iclp1 = c[i+lp1_2+1];
+      }
+      if(l>m)
+      {
+        Rclm1 = c[i-l_2];
+        Iclm1 = c[i-l_2+1];
+      }
 
       lm1  = l - 1;
       lp2  = lp1 + 1;
-- 
2.43.0


From 11ff356e0052aadaa7a2d75bd6eb2a00e5c223e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 53/63] fix: end the search for external faces of a box with
 one point in a direction

---
 src/utility/Coordinates/Coordinates_set_bfaces.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utility/Coordinates/Coordinates_set_bfaces.c b/src/utility/Coordinates/Coordinates_set_bfaces.c
index b3f9e83..b3341e2 100644
--- a/src/utility/Coordinates/Coordinates_set_bfaces.c
+++ b/src/utility/Coordinates/Coordinates_set_bfaces.c
@@ -156,11 +156,11 @@ void find_external_faces_of_box(tBox *box, int *extface, int inclOuterBound)
     nd  = (n1)*(dir==1) + (n2)*(dir==2) + (n3)*(dir==3);
 
     /* go over faces, but not edges */
-    for(p=0; p<nd; p+=nd-1)
+    for(f=2*d; f<=2*d+1; f++)
     {
-      /* pick face index */
-      if(p==0) f=2*d;
-      else     f=2*d+1;
+      /* pick plane index */
+      if(f==2*d) p=0;
+      else       p=nd-1;
 
       /* mark other box as non-existent by default */
       ob = -1;
-- 
2.43.0


From b1c6c41231d15cec00ced7709ba8a6c6e1a9198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 54/63] fix: set the mixed second derivatives in the second
 order ScalarOnKerr equations

---
 src/physics/ScalarOnKerr/ScalarOnKerr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/physics/ScalarOnKerr/ScalarOnKerr.c b/src/physics/ScalarOnKerr/ScalarOnKerr.c
index 3108d9d..d043da4 100644
--- a/src/physics/ScalarOnKerr/ScalarOnKerr.c
+++ b/src/physics/ScalarOnKerr/ScalarOnKerr.c
@@ -745,10 +745,10 @@ void ScalarOnKerr_evolve(tVarList *unew, tVarList *upre, double dt,
         psiy = dpsiy[i];
         psiz = dpsiz[i];
         psixx = ddpsixx[i];
-        psixy_s = ddpsixy[i];
-        psixz_s = ddpsixz[i];
+        psixy = psiyx = psixy_s = ddpsixy[i];
+        psixz = psizx = psixz_s = ddpsixz[i];
         psiyy = ddpsiyy[i];
-        psiyz_s = ddpsiyz[i];
+        psiyz = psizy = psiyz_s = ddpsiyz[i];
         psizz = ddpsizz[i];
       }
       /* use Scheel's def of Pi instead of Pi = psidot */
-- 
2.43.0


From 15109418af38ca3d9cc14228859526fd79dc4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 55/63] fix: use the grid point index in the boundary condition
 of ScalarOnKerr

---
 src/physics/ScalarOnKerr/ScalarOnKerr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/ScalarOnKerr/ScalarOnKerr.c b/src/physics/ScalarOnKerr/ScalarOnKerr.c
index d043da4..6df8d98 100644
--- a/src/physics/ScalarOnKerr/ScalarOnKerr.c
+++ b/src/physics/ScalarOnKerr/ScalarOnKerr.c
@@ -2567,7 +2567,8 @@ void set_psi_Pi_phi_boundary(tVarList *unew, tVarList *upre, double dt,
 
       /* set BC on Upsi */
       nUpsi = -alpha[ijk]*cPi[ijk] +
-              betax[i]*cphix[i] + betay[i]*cphiy[i] + betaz[i]*cphiz[i];
+              betax[ijk]*cphix[ijk] + betay[ijk]*cphiy[ijk] +
+              betaz[ijk]*cphiz[ijk];
       /* set RHS of psi */
       rpsi = nUpsi;
 
-- 
2.43.0


From ba9b862860808f257b786b880088edc026daf910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 56/63] fix: conformal factor of a spinning black hole and its
 derivatives belong together

---
 src/physics/SingleBH/SingleBHKS.c | 20 ++++++++++----------
 src/physics/SingleBH/SingleBHKS.m |  8 ++++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/physics/SingleBH/SingleBHKS.c b/src/physics/SingleBH/SingleBHKS.c
index 24b1664..19f82d3 100644
--- a/src/physics/SingleBH/SingleBHKS.c
+++ b/src/physics/SingleBH/SingleBHKS.c
@@ -447,52 +447,52 @@ if (ConformalFactor) {
 
 psi[ijk]
 =
-1. + (2.*M)/r
+1. + (2.*M)/rho
 ;
 
 dpsiopsi1[ijk]
 =
-(-2.*M*x1[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x1[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi2[ijk]
 =
-(-2.*M*x2[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x2[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 dpsiopsi3[ijk]
 =
-(-2.*M*x3[ijk])/(Power(r,3)*psi[ijk])
+(-2.*M*x3[ijk])/(Power(rho,3)*psi[ijk])
 ;
 
 ddpsiopsi11[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x1[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x1[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi12[ijk]
 =
-(6.*M*x1[ijk]*x2[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x2[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi13[ijk]
 =
-(6.*M*x1[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x1[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi22[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x2[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x2[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 ddpsiopsi23[ijk]
 =
-(6.*M*x2[ijk]*x3[ijk])/(Power(r,5)*psi[ijk])
+(6.*M*x2[ijk]*x3[ijk])/(Power(rho,5)*psi[ijk])
 ;
 
 ddpsiopsi33[ijk]
 =
-(M*(-2./Power(r,3) + (6.*pow2(x3[ijk]))/Power(r,5)))/psi[ijk]
+(M*(-2./Power(rho,3) + (6.*pow2(x3[ijk]))/Power(rho,5)))/psi[ijk]
 ;
 
 
diff --git a/src/physics/SingleBH/SingleBHKS.m b/src/physics/SingleBH/SingleBHKS.m
index b4d82a0..1cdc4ec 100644
--- a/src/physics/SingleBH/SingleBHKS.m
+++ b/src/physics/SingleBH/SingleBHKS.m
@@ -46,10 +46,10 @@ tocompute = {
  (* Conformal Factor *)
  Cif == ConformalFactor,
 
-   (* set cconformal factor psi=1+2M/r   <-adhoc choice *)
-   psi == 1+2M/r,
-   dpsiopsi[a] == ( -(2M/r^2) x[a]/r )/psi ,  (* = ( -(2M/r^3) x[a] )/psi *)
-   ddpsiopsi[a,b] == ( (6M/r^3) (x[a]/r) (x[b]/r) -(2M/r^3)delta[a,b] )/psi,
+   (* set cconformal factor psi=1+2M/rho   <-adhoc choice *)
+   psi == 1+2M/rho,
+   dpsiopsi[a] == ( -(2M/rho^2) x[a]/rho )/psi ,  (* = ( -(2M/rho^3) x[a] )/psi *)
+   ddpsiopsi[a,b] == ( (6M/rho^3) (x[a]/rho) (x[b]/rho) -(2M/rho^3)delta[a,b] )/psi,
 
  Cif == else,
 
-- 
2.43.0


From ee75b782ea388f11c05413e65476641df79872db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 57/63] fix: do not overwrite terms in the term by term norm of
 the constraints

---
 src/physics/ADMvars/ADMconstraints.c | 284 +++++++++++++++------------
 src/physics/ADMvars/ADMconstraints.m |   4 +-
 2 files changed, 164 insertions(+), 124 deletions(-)

diff --git a/src/physics/ADMvars/ADMconstraints.c b/src/physics/ADMvars/ADMconstraints.c
index fa80782..3efe51b 100644
--- a/src/physics/ADMvars/ADMconstraints.c
+++ b/src/physics/ADMvars/ADMconstraints.c
@@ -261,39 +261,57 @@ double codelKA323;
 double codelKA333;
 double codelKB111;
 double codelKB112;
+double codelKB121;
 double codelKB113;
+double codelKB131;
 double codelKB122;
 double codelKB123;
+double codelKB132;
 double codelKB133;
 double codelKB211;
 double codelKB212;
+double codelKB221;
 double codelKB213;
+double codelKB231;
 double codelKB222;
 double codelKB223;
+double codelKB232;
 double codelKB233;
 double codelKB311;
 double codelKB312;
+double codelKB321;
 double codelKB313;
+double codelKB331;
 double codelKB322;
 double codelKB323;
+double codelKB332;
 double codelKB333;
 double codelKC111;
 double codelKC112;
+double codelKC121;
 double codelKC113;
+double codelKC131;
 double codelKC122;
 double codelKC123;
+double codelKC132;
 double codelKC133;
 double codelKC211;
 double codelKC212;
+double codelKC221;
 double codelKC213;
+double codelKC231;
 double codelKC222;
 double codelKC223;
+double codelKC232;
 double codelKC233;
 double codelKC311;
 double codelKC312;
+double codelKC321;
 double codelKC313;
+double codelKC331;
 double codelKC322;
 double codelKC323;
+double codelKC332;
 double codelKC333;
 double codelTrKA1;
 double codelTrKA2;
@@ -2201,30 +2219,22 @@ deldelg1111*ginv11 + (deldelg1112 + deldelg1211)*ginv12 +
 
 RB12
 =
-deldelg1112*ginv11 + (deldelg1122 + deldelg1212)*ginv12 + 
+0.5*(deldelg1112*ginv11 + (deldelg1122 + deldelg1212)*ginv12 + 
   (deldelg1123 + deldelg1312)*ginv13 + deldelg1222*ginv22 + 
-  (deldelg1223 + deldelg1322)*ginv23 + deldelg1323*ginv33
-;
-
-RB12
-=
-deldelg1211*ginv11 + (deldelg1212 + deldelg2211)*ginv12 + 
+  (deldelg1223 + deldelg1322)*ginv23 + deldelg1323*ginv33 +
+  deldelg1211*ginv11 + (deldelg1212 + deldelg2211)*ginv12 + 
   (deldelg1213 + deldelg2311)*ginv13 + deldelg2212*ginv22 + 
-  (deldelg2213 + deldelg2312)*ginv23 + deldelg2313*ginv33
+  (deldelg2213 + deldelg2312)*ginv23 + deldelg2313*ginv33)
 ;
 
 RB13
 =
-deldelg1113*ginv11 + (deldelg1123 + deldelg1213)*ginv12 + 
+0.5*(deldelg1113*ginv11 + (deldelg1123 + deldelg1213)*ginv12 + 
   (deldelg1133 + deldelg1313)*ginv13 + deldelg1223*ginv22 + 
-  (deldelg1233 + deldelg1323)*ginv23 + deldelg1333*ginv33
-;
-
-RB13
-=
-deldelg1311*ginv11 + (deldelg1312 + deldelg2311)*ginv12 + 
+  (deldelg1233 + deldelg1323)*ginv23 + deldelg1333*ginv33 +
+  deldelg1311*ginv11 + (deldelg1312 + deldelg2311)*ginv12 + 
   (deldelg1313 + deldelg3311)*ginv13 + deldelg2312*ginv22 + 
-  (deldelg2313 + deldelg3312)*ginv23 + deldelg3313*ginv33
+  (deldelg2313 + deldelg3312)*ginv23 + deldelg3313*ginv33)
 ;
 
 RB22
@@ -2236,16 +2246,12 @@ deldelg1212*ginv11 + (deldelg1222 + deldelg2212)*ginv12 +
 
 RB23
 =
-deldelg1213*ginv11 + (deldelg1223 + deldelg2213)*ginv12 + 
+0.5*(deldelg1213*ginv11 + (deldelg1223 + deldelg2213)*ginv12 + 
   (deldelg1233 + deldelg2313)*ginv13 + deldelg2223*ginv22 + 
-  (deldelg2233 + deldelg2323)*ginv23 + deldelg2333*ginv33
-;
-
-RB23
-=
-deldelg1312*ginv11 + (deldelg1322 + deldelg2312)*ginv12 + 
+  (deldelg2233 + deldelg2323)*ginv23 + deldelg2333*ginv33 +
+  deldelg1312*ginv11 + (deldelg1322 + deldelg2312)*ginv12 + 
   (deldelg1323 + deldelg3312)*ginv13 + deldelg2322*ginv22 + 
-  (deldelg2323 + deldelg3322)*ginv23 + deldelg3323*ginv33
+  (deldelg2323 + deldelg3322)*ginv23 + deldelg3323*ginv33)
 ;
 
 RB33
@@ -2663,11 +2669,6 @@ codelKB111
 -(gamma111*K11[ijk]) - gamma211*K12[ijk] - gamma311*K13[ijk]
 ;
 
-codelKB112
-=
--(gamma112*K11[ijk]) - gamma212*K12[ijk] - gamma312*K13[ijk]
-;
-
 codelKB112
 =
 -(gamma111*K12[ijk]) - gamma211*K22[ijk] - gamma311*K23[ijk]
@@ -2675,12 +2676,12 @@ codelKB112
 
 codelKB113
 =
--(gamma113*K11[ijk]) - gamma213*K12[ijk] - gamma313*K13[ijk]
+-(gamma111*K13[ijk]) - gamma211*K23[ijk] - gamma311*K33[ijk]
 ;
 
-codelKB113
+codelKB121
 =
--(gamma111*K13[ijk]) - gamma211*K23[ijk] - gamma311*K33[ijk]
+-(gamma112*K11[ijk]) - gamma212*K12[ijk] - gamma312*K13[ijk]
 ;
 
 codelKB122
@@ -2690,42 +2691,42 @@ codelKB122
 
 codelKB123
 =
--(gamma113*K12[ijk]) - gamma213*K22[ijk] - gamma313*K23[ijk]
+-(gamma112*K13[ijk]) - gamma212*K23[ijk] - gamma312*K33[ijk]
 ;
 
-codelKB123
+codelKB131
 =
--(gamma112*K13[ijk]) - gamma212*K23[ijk] - gamma312*K33[ijk]
+-(gamma113*K11[ijk]) - gamma213*K12[ijk] - gamma313*K13[ijk]
 ;
 
-codelKB133
+codelKB132
 =
--(gamma113*K13[ijk]) - gamma213*K23[ijk] - gamma313*K33[ijk]
+-(gamma113*K12[ijk]) - gamma213*K22[ijk] - gamma313*K23[ijk]
 ;
 
-codelKB211
+codelKB133
 =
--(gamma121*K11[ijk]) - gamma221*K12[ijk] - gamma321*K13[ijk]
+-(gamma113*K13[ijk]) - gamma213*K23[ijk] - gamma313*K33[ijk]
 ;
 
-codelKB212
+codelKB211
 =
--(gamma122*K11[ijk]) - gamma222*K12[ijk] - gamma322*K13[ijk]
+-(gamma112*K11[ijk]) - gamma212*K12[ijk] - gamma312*K13[ijk]
 ;
 
 codelKB212
 =
--(gamma121*K12[ijk]) - gamma221*K22[ijk] - gamma321*K23[ijk]
+-(gamma112*K12[ijk]) - gamma212*K22[ijk] - gamma312*K23[ijk]
 ;
 
 codelKB213
 =
--(gamma123*K11[ijk]) - gamma223*K12[ijk] - gamma323*K13[ijk]
+-(gamma112*K13[ijk]) - gamma212*K23[ijk] - gamma312*K33[ijk]
 ;
 
-codelKB213
+codelKB221
 =
--(gamma121*K13[ijk]) - gamma221*K23[ijk] - gamma321*K33[ijk]
+-(gamma122*K11[ijk]) - gamma222*K12[ijk] - gamma322*K13[ijk]
 ;
 
 codelKB222
@@ -2735,57 +2736,62 @@ codelKB222
 
 codelKB223
 =
--(gamma123*K12[ijk]) - gamma223*K22[ijk] - gamma323*K23[ijk]
+-(gamma122*K13[ijk]) - gamma222*K23[ijk] - gamma322*K33[ijk]
 ;
 
-codelKB223
+codelKB231
 =
--(gamma122*K13[ijk]) - gamma222*K23[ijk] - gamma322*K33[ijk]
+-(gamma123*K11[ijk]) - gamma223*K12[ijk] - gamma323*K13[ijk]
 ;
 
-codelKB233
+codelKB232
 =
--(gamma123*K13[ijk]) - gamma223*K23[ijk] - gamma323*K33[ijk]
+-(gamma123*K12[ijk]) - gamma223*K22[ijk] - gamma323*K23[ijk]
 ;
 
-codelKB311
+codelKB233
 =
--(gamma131*K11[ijk]) - gamma231*K12[ijk] - gamma331*K13[ijk]
+-(gamma123*K13[ijk]) - gamma223*K23[ijk] - gamma323*K33[ijk]
 ;
 
-codelKB312
+codelKB311
 =
--(gamma132*K11[ijk]) - gamma232*K12[ijk] - gamma332*K13[ijk]
+-(gamma113*K11[ijk]) - gamma213*K12[ijk] - gamma313*K13[ijk]
 ;
 
 codelKB312
 =
--(gamma131*K12[ijk]) - gamma231*K22[ijk] - gamma331*K23[ijk]
+-(gamma113*K12[ijk]) - gamma213*K22[ijk] - gamma313*K23[ijk]
 ;
 
 codelKB313
 =
--(gamma133*K11[ijk]) - gamma233*K12[ijk] - gamma333*K13[ijk]
+-(gamma113*K13[ijk]) - gamma213*K23[ijk] - gamma313*K33[ijk]
 ;
 
-codelKB313
+codelKB321
 =
--(gamma131*K13[ijk]) - gamma231*K23[ijk] - gamma331*K33[ijk]
+-(gamma123*K11[ijk]) - gamma223*K12[ijk] - gamma323*K13[ijk]
 ;
 
 codelKB322
 =
--(gamma132*K12[ijk]) - gamma232*K22[ijk] - gamma332*K23[ijk]
+-(gamma123*K12[ijk]) - gamma223*K22[ijk] - gamma323*K23[ijk]
 ;
 
 codelKB323
 =
--(gamma133*K12[ijk]) - gamma233*K22[ijk] - gamma333*K23[ijk]
+-(gamma123*K13[ijk]) - gamma223*K23[ijk] - gamma323*K33[ijk]
 ;
 
-codelKB323
+codelKB331
 =
--(gamma132*K13[ijk]) - gamma232*K23[ijk] - gamma332*K33[ijk]
+-(gamma133*K11[ijk]) - gamma233*K12[ijk] - gamma333*K13[ijk]
+;
+
+codelKB332
+=
+-(gamma133*K12[ijk]) - gamma233*K22[ijk] - gamma333*K23[ijk]
 ;
 
 codelKB333
@@ -2803,19 +2809,14 @@ codelKC112
 -(gamma112*K11[ijk]) - gamma212*K12[ijk] - gamma312*K13[ijk]
 ;
 
-codelKC112
-=
--(gamma111*K12[ijk]) - gamma211*K22[ijk] - gamma311*K23[ijk]
-;
-
 codelKC113
 =
 -(gamma113*K11[ijk]) - gamma213*K12[ijk] - gamma313*K13[ijk]
 ;
 
-codelKC113
+codelKC121
 =
--(gamma111*K13[ijk]) - gamma211*K23[ijk] - gamma311*K33[ijk]
+-(gamma111*K12[ijk]) - gamma211*K22[ijk] - gamma311*K23[ijk]
 ;
 
 codelKC122
@@ -2828,7 +2829,12 @@ codelKC123
 -(gamma113*K12[ijk]) - gamma213*K22[ijk] - gamma313*K23[ijk]
 ;
 
-codelKC123
+codelKC131
+=
+-(gamma111*K13[ijk]) - gamma211*K23[ijk] - gamma311*K33[ijk]
+;
+
+codelKC132
 =
 -(gamma112*K13[ijk]) - gamma212*K23[ijk] - gamma312*K33[ijk]
 ;
@@ -2840,7 +2846,7 @@ codelKC133
 
 codelKC211
 =
--(gamma121*K11[ijk]) - gamma221*K12[ijk] - gamma321*K13[ijk]
+-(gamma112*K11[ijk]) - gamma212*K12[ijk] - gamma312*K13[ijk]
 ;
 
 codelKC212
@@ -2848,19 +2854,14 @@ codelKC212
 -(gamma122*K11[ijk]) - gamma222*K12[ijk] - gamma322*K13[ijk]
 ;
 
-codelKC212
-=
--(gamma121*K12[ijk]) - gamma221*K22[ijk] - gamma321*K23[ijk]
-;
-
 codelKC213
 =
 -(gamma123*K11[ijk]) - gamma223*K12[ijk] - gamma323*K13[ijk]
 ;
 
-codelKC213
+codelKC221
 =
--(gamma121*K13[ijk]) - gamma221*K23[ijk] - gamma321*K33[ijk]
+-(gamma112*K12[ijk]) - gamma212*K22[ijk] - gamma312*K23[ijk]
 ;
 
 codelKC222
@@ -2873,7 +2874,12 @@ codelKC223
 -(gamma123*K12[ijk]) - gamma223*K22[ijk] - gamma323*K23[ijk]
 ;
 
-codelKC223
+codelKC231
+=
+-(gamma112*K13[ijk]) - gamma212*K23[ijk] - gamma312*K33[ijk]
+;
+
+codelKC232
 =
 -(gamma122*K13[ijk]) - gamma222*K23[ijk] - gamma322*K33[ijk]
 ;
@@ -2885,17 +2891,12 @@ codelKC233
 
 codelKC311
 =
--(gamma131*K11[ijk]) - gamma231*K12[ijk] - gamma331*K13[ijk]
-;
-
-codelKC312
-=
--(gamma132*K11[ijk]) - gamma232*K12[ijk] - gamma332*K13[ijk]
+-(gamma113*K11[ijk]) - gamma213*K12[ijk] - gamma313*K13[ijk]
 ;
 
 codelKC312
 =
--(gamma131*K12[ijk]) - gamma231*K22[ijk] - gamma331*K23[ijk]
+-(gamma123*K11[ijk]) - gamma223*K12[ijk] - gamma323*K13[ijk]
 ;
 
 codelKC313
@@ -2903,14 +2904,14 @@ codelKC313
 -(gamma133*K11[ijk]) - gamma233*K12[ijk] - gamma333*K13[ijk]
 ;
 
-codelKC313
+codelKC321
 =
--(gamma131*K13[ijk]) - gamma231*K23[ijk] - gamma331*K33[ijk]
+-(gamma113*K12[ijk]) - gamma213*K22[ijk] - gamma313*K23[ijk]
 ;
 
 codelKC322
 =
--(gamma132*K12[ijk]) - gamma232*K22[ijk] - gamma332*K23[ijk]
+-(gamma123*K12[ijk]) - gamma223*K22[ijk] - gamma323*K23[ijk]
 ;
 
 codelKC323
@@ -2918,9 +2919,14 @@ codelKC323
 -(gamma133*K12[ijk]) - gamma233*K22[ijk] - gamma333*K23[ijk]
 ;
 
-codelKC323
+codelKC331
 =
--(gamma132*K13[ijk]) - gamma232*K23[ijk] - gamma332*K33[ijk]
+-(gamma113*K13[ijk]) - gamma213*K23[ijk] - gamma313*K33[ijk]
+;
+
+codelKC332
+=
+-(gamma123*K13[ijk]) - gamma223*K23[ijk] - gamma323*K33[ijk]
 ;
 
 codelKC333
@@ -2951,44 +2957,62 @@ codelKA113*ginv11 + (codelKA123 + codelKA213)*ginv12 +
 
 cdKdB1
 =
-codelKB111*ginv11 + (codelKB112 + codelKB211)*ginv12 + 
-  (codelKB113 + codelKB311)*ginv13 + codelKB212*ginv22 + 
-  (codelKB213 + codelKB312)*ginv23 + codelKB313*ginv33
+codelKB111*ginv11 + 
+  (codelKB112 + codelKB211)*ginv12 + 
+  (codelKB113 + codelKB311)*ginv13 + 
+  codelKB212*ginv22 + 
+  (codelKB213 + codelKB312)*ginv23 + 
+  codelKB313*ginv33
 ;
 
 cdKdB2
 =
-codelKB112*ginv11 + (codelKB122 + codelKB212)*ginv12 + 
-  (codelKB123 + codelKB312)*ginv13 + codelKB222*ginv22 + 
-  (codelKB223 + codelKB322)*ginv23 + codelKB323*ginv33
+codelKB121*ginv11 + 
+  (codelKB122 + codelKB221)*ginv12 + 
+  (codelKB123 + codelKB321)*ginv13 + 
+  codelKB222*ginv22 + 
+  (codelKB223 + codelKB322)*ginv23 + 
+  codelKB323*ginv33
 ;
 
 cdKdB3
 =
-codelKB113*ginv11 + (codelKB123 + codelKB213)*ginv12 + 
-  (codelKB133 + codelKB313)*ginv13 + codelKB223*ginv22 + 
-  (codelKB233 + codelKB323)*ginv23 + codelKB333*ginv33
+codelKB131*ginv11 + 
+  (codelKB132 + codelKB231)*ginv12 + 
+  (codelKB133 + codelKB331)*ginv13 + 
+  codelKB232*ginv22 + 
+  (codelKB233 + codelKB332)*ginv23 + 
+  codelKB333*ginv33
 ;
 
 cdKdC1
 =
-codelKC111*ginv11 + (codelKC112 + codelKC211)*ginv12 + 
-  (codelKC113 + codelKC311)*ginv13 + codelKC212*ginv22 + 
-  (codelKC213 + codelKC312)*ginv23 + codelKC313*ginv33
+codelKC111*ginv11 + 
+  (codelKC112 + codelKC211)*ginv12 + 
+  (codelKC113 + codelKC311)*ginv13 + 
+  codelKC212*ginv22 + 
+  (codelKC213 + codelKC312)*ginv23 + 
+  codelKC313*ginv33
 ;
 
 cdKdC2
 =
-codelKC112*ginv11 + (codelKC122 + codelKC212)*ginv12 + 
-  (codelKC123 + codelKC312)*ginv13 + codelKC222*ginv22 + 
-  (codelKC223 + codelKC322)*ginv23 + codelKC323*ginv33
+codelKC121*ginv11 + 
+  (codelKC122 + codelKC221)*ginv12 + 
+  (codelKC123 + codelKC321)*ginv13 + 
+  codelKC222*ginv22 + 
+  (codelKC223 + codelKC322)*ginv23 + 
+  codelKC323*ginv33
 ;
 
 cdKdC3
 =
-codelKC113*ginv11 + (codelKC123 + codelKC213)*ginv12 + 
-  (codelKC133 + codelKC313)*ginv13 + codelKC223*ginv22 + 
-  (codelKC233 + codelKC323)*ginv23 + codelKC333*ginv33
+codelKC131*ginv11 + 
+  (codelKC132 + codelKC231)*ginv12 + 
+  (codelKC133 + codelKC331)*ginv13 + 
+  codelKC232*ginv22 + 
+  (codelKC233 + codelKC332)*ginv23 + 
+  codelKC333*ginv33
 ;
 
 codelTrKA1
@@ -3014,43 +3038,61 @@ codelKA311*ginv11 + codelKA322*ginv22 +
 
 codelTrKB1
 =
-codelKB111*ginv11 + codelKB122*ginv22 + 
-  2.*(codelKB112*ginv12 + codelKB113*ginv13 + codelKB123*ginv23) + 
+codelKB111*ginv11 + 
+  (codelKB112 + codelKB121)*ginv12 + 
+  (codelKB113 + codelKB131)*ginv13 + 
+  codelKB122*ginv22 + 
+  (codelKB123 + codelKB132)*ginv23 + 
   codelKB133*ginv33
 ;
 
 codelTrKB2
 =
-codelKB211*ginv11 + codelKB222*ginv22 + 
-  2.*(codelKB212*ginv12 + codelKB213*ginv13 + codelKB223*ginv23) + 
+codelKB211*ginv11 + 
+  (codelKB212 + codelKB221)*ginv12 + 
+  (codelKB213 + codelKB231)*ginv13 + 
+  codelKB222*ginv22 + 
+  (codelKB223 + codelKB232)*ginv23 + 
   codelKB233*ginv33
 ;
 
 codelTrKB3
 =
-codelKB311*ginv11 + codelKB322*ginv22 + 
-  2.*(codelKB312*ginv12 + codelKB313*ginv13 + codelKB323*ginv23) + 
+codelKB311*ginv11 + 
+  (codelKB312 + codelKB321)*ginv12 + 
+  (codelKB313 + codelKB331)*ginv13 + 
+  codelKB322*ginv22 + 
+  (codelKB323 + codelKB332)*ginv23 + 
   codelKB333*ginv33
 ;
 
 codelTrKC1
 =
-codelKC111*ginv11 + codelKC122*ginv22 + 
-  2.*(codelKC112*ginv12 + codelKC113*ginv13 + codelKC123*ginv23) + 
+codelKC111*ginv11 + 
+  (codelKC112 + codelKC121)*ginv12 + 
+  (codelKC113 + codelKC131)*ginv13 + 
+  codelKC122*ginv22 + 
+  (codelKC123 + codelKC132)*ginv23 + 
   codelKC133*ginv33
 ;
 
 codelTrKC2
 =
-codelKC211*ginv11 + codelKC222*ginv22 + 
-  2.*(codelKC212*ginv12 + codelKC213*ginv13 + codelKC223*ginv23) + 
+codelKC211*ginv11 + 
+  (codelKC212 + codelKC221)*ginv12 + 
+  (codelKC213 + codelKC231)*ginv13 + 
+  codelKC222*ginv22 + 
+  (codelKC223 + codelKC232)*ginv23 + 
   codelKC233*ginv33
 ;
 
 codelTrKC3
 =
-codelKC311*ginv11 + codelKC322*ginv22 + 
-  2.*(codelKC312*ginv12 + codelKC313*ginv13 + codelKC323*ginv23) + 
+codelKC311*ginv11 + 
+  (codelKC312 + codelKC321)*ginv12 + 
+  (codelKC313 + codelKC331)*ginv13 + 
+  codelKC322*ginv22 + 
+  (codelKC323 + codelKC332)*ginv23 + 
   codelKC333*ginv33
 ;
 
diff --git a/src/physics/ADMvars/ADMconstraints.m b/src/physics/ADMvars/ADMconstraints.m
index 15988b5..b7c1025 100644
--- a/src/physics/ADMvars/ADMconstraints.m
+++ b/src/physics/ADMvars/ADMconstraints.m
@@ -95,7 +95,7 @@ tocompute = {
     Cif == TermByTerm,
       (* compute fabs of some terms in R separately *)
       RA[a,b] == ginv[c,d] * (-deldelg[c,d,a,b]),
-      RB[a,b] == ginv[c,d] * ( deldelg[a,c,b,d]),
+      RB[a,b] == ginv[c,d] * ( deldelg[a,c,b,d] + deldelg[b,c,a,d] )/2,
       RC[a,b] == ginv[c,d] * ( gamma[e,a,c] gammado[e,b,d]),
       RD[a,b] == ginv[c,d] * (-gamma[e,a,b] gammado[e,c,d]),
       RA == ginv[a,b] RA[a,b],
@@ -167,8 +167,6 @@ RB[a_,b_]         := RB[b,a] /; !OrderedQ[{a,b}]
 RC[a_,b_]         := RC[b,a] /; !OrderedQ[{a,b}]
 RD[a_,b_]         := RD[b,a] /; !OrderedQ[{a,b}]
 codelKA[c_,a_,b_] := codelKA[c,b,a] /; !OrderedQ[{a,b}]
-codelKB[c_,a_,b_] := codelKB[c,b,a] /; !OrderedQ[{a,b}]
-codelKC[c_,a_,b_] := codelKC[c,b,a] /; !OrderedQ[{a,b}]
 cdKuddA[c_,a_,b_] := cdKuddA[c,b,a] /; !OrderedQ[{a,b}]
 cdKuddB[c_,a_,b_] := cdKuddB[c,b,a] /; !OrderedQ[{a,b}]
 cdKuddC[c_,a_,b_] := cdKuddC[c,b,a] /; !OrderedQ[{a,b}]
-- 
2.43.0


From 88e6521c0435eae6fb93274a1d91ff89269993fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 58/63] fix: recomputed gzz gives unit determinant

---
 src/physics/BSSN/BSSN_rhs.c | 2 +-
 src/physics/BSSN/BSSN_rhs.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/BSSN/BSSN_rhs.c b/src/physics/BSSN/BSSN_rhs.c
index f113813..d604138 100644
--- a/src/physics/BSSN/BSSN_rhs.c
+++ b/src/physics/BSSN/BSSN_rhs.c
@@ -3089,7 +3089,7 @@ if (recomputegzz) {
 
 ng33[ijk]
 =
-1. + (-2.*ng12[ijk]*ng13[ijk]*ng23[ijk] + ng22[ijk]*pow2(ng13[ijk]) + 
+(1. - 2.*ng12[ijk]*ng13[ijk]*ng23[ijk] + ng22[ijk]*pow2(ng13[ijk]) + 
      ng11[ijk]*pow2(ng23[ijk]))/(ng11[ijk]*ng22[ijk] - pow2(ng12[ijk]))
 ;
 
diff --git a/src/physics/BSSN/BSSN_rhs.m b/src/physics/BSSN/BSSN_rhs.m
index 2943568..2896ff9 100644
--- a/src/physics/BSSN/BSSN_rhs.m
+++ b/src/physics/BSSN/BSSN_rhs.m
@@ -247,7 +247,7 @@ tocompute = {
 
     (* recompute Azz from the other As and gzz from th other gs *)
     Cif == recomputegzz,
-      ng33 == 1 + (ng22 ng13 ng13 -2 ng12 ng23 ng13 + ng11 ng23 ng23)/
+      ng33 == (1 + ng22 ng13 ng13 -2 ng12 ng23 ng13 + ng11 ng23 ng23)/
                   (ng11 ng22 - ng12 ng12),
     Cif == end,
     detnginv == 1/matrixdet[ng],
-- 
2.43.0


From 7b773e4f1028a1f50bdec2123f895c96db14065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 59/63] fix: name of the Z4secondO lapse parameter and missing
 shift_stop_time

---
 src/physics/Z4secondO/sgrid_Z4secondO.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/physics/Z4secondO/sgrid_Z4secondO.c b/src/physics/Z4secondO/sgrid_Z4secondO.c
index 51ba9e6..5634f54 100644
--- a/src/physics/Z4secondO/sgrid_Z4secondO.c
+++ b/src/physics/Z4secondO/sgrid_Z4secondO.c
@@ -50,7 +50,11 @@ int sgrid_Z4secondO(void)
          
   AddPar("Z4secondO_shift",  "constant",
          "shift equation [constant,gamma0,gamma2]");
-  AddPar("Z4secondOy_lapse", "constant", 
+  AddPar("Z4secondO_lapse", "constant", 
 	 "lapse equation [constant,1+log,harmonic;withshift]");
+
+  AddPar("Z4secondO_shift_stop_time", "-1.0",
+         "time when shift stops evolving (-1 for don't stop)");
+
   return 0;
 }
-- 
2.43.0


From cfb7f341b1c5cedd3de2bd305c709e9aadb97699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 60/63] fix: linearised term 2 Chi lChi Psizz in J_Poisson3

---
 src/physics/Poisson3/Poisson3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/Poisson3/Poisson3.c b/src/physics/Poisson3/Poisson3.c
index c154540..79081d6 100644
--- a/src/physics/Poisson3/Poisson3.c
+++ b/src/physics/Poisson3/Poisson3.c
@@ -416,7 +416,7 @@ void J_Poisson3(tVarList *VLJlu, tVarList *VLlu,
     forallpoints(box, i)
     {
       JlPsi[i] = Chi[i]*lPsixx[i] + lChi[i]*Psixx[i]  +  lPsiyy[i]  +
-                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*lChi[i]*Psizz[i];
+                 Chi[i]*Chi[i]*lPsizz[i] + 2.0*Chi[i]*lChi[i]*Psizz[i];
       JlChi[i] = lChixx[i] + Psix[i]*lChiyy[i] + lPsix[i]*Chiyy[i] + lChizz[i];
     }
   }
-- 
2.43.0


From 6cb18e921d9e62308fcdffc6492db55e56fcd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 61/63] fix: missing factor N.n in the 1.5PN amplitude
 correction of PN waves

---
 src/physics/PN_CircularOrbit_GWs/compute_GWs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
index 86d60cc..5ec2ad9 100644
--- a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
+++ b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
@@ -380,7 +380,7 @@ void compute_P15Qc(double y[], double lambda[], double n[], double theta, double
                                                + 7.5*NN_dot_n*pow(NN_dot_lambda,2)*(n[i]*lambda[j]+n[j]*lambda[i])
                                              )
                                 - NN_dot_lambda*(1.0/12.0*(101.0 -12.0*nu)*n[i]*n[j] - 0.5*(19.0-4.0*nu)*lambda[i]*lambda[j])
-                                - 1.0/12.0*(149.0-36.0*nu)*(n[i]*lambda[j]+n[j]*lambda[i]) 
+                                - 1.0/12.0*(149.0-36.0*nu)*NN_dot_n*(n[i]*lambda[j]+n[j]*lambda[i]) 
                               ) 
                     - 2.0/m/m*(  
                                 lambda[i]*lambda[j]*Ln_cap_dot_S5_p_3Delta
-- 
2.43.0


From 15087a281da27f69d8bef2955759943ea7dad9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 62/63] fix: sign of the (19-3nu)/3 term in the 1PN amplitude
 correction of PN waves

---
 src/physics/PN_CircularOrbit_GWs/compute_GWs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
index 5ec2ad9..50d23bf 100644
--- a/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
+++ b/src/physics/PN_CircularOrbit_GWs/compute_GWs.c
@@ -270,7 +270,7 @@ void compute_P1Qc(double lambda[], double n[], double theta, double phi, double
                        - 8.0*NN_dot_n*NN_dot_lambda*( n[i]*lambda[j] + n[j]*lambda[i] ) 
                        + pow(NN_dot_lambda,2)*( 3.0*lambda[i]*lambda[j] - n[i]*n[j] )              
                      )                                                                  
-                    -(19.0-3.0*nu)/3.0*( n[i]*n[j]-lambda[i]*lambda[j] )                
+                    +(19.0-3.0*nu)/3.0*( n[i]*n[j]-lambda[i]*lambda[j] )                
                     +( n[i]*Delta_cross_NN[j]+n[j]*Delta_cross_NN[i])/m/m;   
       }
   } 
-- 
2.43.0


From b41023306dcbbeebe772373546a9b3888139abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 63/63] fix: set the grid time for both waves used in the
 second time derivative of h

---
 src/physics/PN_CircularOrbit_GWs/PN_CircularOrbit_GWs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/physics/PN_CircularOrbit_GWs/PN_CircularOrbit_GWs.c b/src/physics/PN_CircularOrbit_GWs/PN_CircularOrbit_GWs.c
index c682cce..c64e181 100644
--- a/src/physics/PN_CircularOrbit_GWs/PN_CircularOrbit_GWs.c
+++ b/src/physics/PN_CircularOrbit_GWs/PN_CircularOrbit_GWs.c
@@ -539,13 +539,16 @@ void compute_FDpsi4_and_hplus_hcross_on_sphere(tBox *box,
   /* set yvec at -dt */
   PN_CircOrbit_xodeint(m1, m2, t, t-dt, yvec); 
   /* put H(t-dt) = h+ - i hx at i=0 */ 
+  box->grid->time = t-dt; /* h+,hx also depend explicitly on time */
   compute_hplus_hcross_on_sphere(box, hpind, hxind, yvec, D,m1,m2, 0,0, 0);
 
   /* set yvec at +dt */
   for(i=0; i<12; i++) yvec[i]=yin[i]; 
   PN_CircOrbit_xodeint(m1, m2, t, t+dt, yvec);
   /* put H(t+dt) = h+ - i hx at i=2 */ 
+  box->grid->time = t+dt;
   compute_hplus_hcross_on_sphere(box, hpind, hxind, yvec, D,m1,m2, 2,2, 0);
+  box->grid->time = t;
     
   /* use 2nd order fin diff in time to find psi4
      and set psi4 and h+, hx for all imin<=i<=imax from i=1 */
-- 
2.43.0

