From 79d4c85f4a6a07cbc2833b72e20e5ba17e7dbf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:39 +0000
Subject: [PATCH 01/22] fix: copy both components of complex data when no
 initial remap is needed and in != out

---
 src/fft2d.cpp | 12 ++++++------
 src/fft3d.cpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index e5fe4c7..108d44d 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -533,7 +533,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastslow) remap(data,data,remap_fastslow);
@@ -548,7 +548,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowfast) remap(data,data,remap_slowfast);
@@ -600,7 +600,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastslow) remap(data,data,remap_fastslow);
 
@@ -609,7 +609,7 @@ void FFT2d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowfast) remap(data,data,remap_slowfast);
 
@@ -636,7 +636,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
@@ -646,7 +646,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 3) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index a643992..82d8cdb 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -567,7 +567,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_fastmid) remap(data,data,remap_fastmid);
@@ -585,7 +585,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remaponly) {
       if (remap_slowmid) remap(data,data,remap_slowmid);
@@ -641,7 +641,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   if (flag == FORWARD || inout_layout_same) {
 
     if (remap_prefast) remap(in,out,remap_prefast);
-    else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
 
     if (remap_fastmid) remap(data,data,remap_fastmid);
     if (remap_midslow) remap(data,data,remap_midslow);
@@ -651,7 +651,7 @@ void FFT3d::only_remaps(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
   } else {
 
     if (remap_preslow) remap(in,out,remap_preslow);
-    else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+    else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
 
     if (remap_slowmid) remap(data,data,remap_slowmid);
     if (remap_midfast) remap(data,data,remap_midfast);
@@ -679,7 +679,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   if (flag == FORWARD || inout_layout_same) {
     if (which == 1) {
       if (remap_prefast) remap(in,out,remap_prefast);
-      else if (in != out) memcpy(out,in,insize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     } else if (which == 2) {
       if (remap_fastmid) remap(in,out,remap_fastmid);
     } else if (which == 3) {
@@ -691,7 +691,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
   } else {
     if (which == 4) {
       if (remap_preslow) remap(in,out,remap_preslow);
-      else if (in != out) memcpy(out,in,outsize*sizeof(FFT_SCALAR));
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     } else if (which == 3) {
       if (remap_slowmid) remap(in,out,remap_slowmid);
     } else if (which == 2) {
-- 
2.43.0


From e8ca544da5ccb51788fb5c4f6abbf83676bb18ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:39 +0000
Subject: [PATCH 02/22] fix: last remap of an inverse FFT must read the
 transformed data, not the input array

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 108d44d..135a0f2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -558,7 +558,7 @@ void FFT2d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 82d8cdb..d913b2a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -598,7 +598,7 @@ void FFT3d::compute(FFT_SCALAR *in, FFT_SCALAR *out, int flag)
       perform_ffts((FFT_DATA *) data,flag,fft_fast);
     }
 
-    if (remap_postfast) remap(in,out,remap_postfast);
+    if (remap_postfast) remap(data,data,remap_postfast);
   }
 
   if (flag == BACKWARD && scaled && !remaponly) scale_ffts((FFT_DATA *) data);
-- 
2.43.0


From 8ce69b78aa2290a5375afbf0aa71ee47fa6a5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:55 +0000
Subject: [PATCH 03/22] fix: second stage of a two-stage remap must read the
 result of the first stage

---
 src/fft2d.cpp | 2 +-
 src/fft3d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 135a0f2..ed6b4dd 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -1056,7 +1056,7 @@ void FFT2d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap2d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap2d_extra) 
-    remap->remap2d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap2d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index d913b2a..145174e 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1117,7 +1117,7 @@ void FFT3d::remap(FFT_SCALAR *in, FFT_SCALAR *out, Remap *remap)
 {
   remap->remap3d->remap(in,out,sendbuf,recvbuf);
   if (remap->remap3d_extra) 
-    remap->remap3d_extra->remap(in,out,sendbuf,recvbuf);
+    remap->remap3d_extra->remap(out,out,sendbuf,recvbuf);
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 91753fb54379fa91d80fe8926d7d47aeea3285f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:17 +0000
Subject: [PATCH 04/22] fix: include the mid->fast second-stage remap in the
 returned send/recv buffer sizes

---
 src/fft3d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 145174e..fe77448 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -1372,6 +1372,8 @@ void FFT3d::remap_inverse_create(int &sendsize, int &recvsize)
       setup(brick_jlo,brick_jhi,brick_klo,brick_khi,brick_ilo,brick_ihi,
             fast_jlo,fast_jhi,fast_klo,fast_khi,fast_ilo,fast_ihi,
             2,2,0,ssize,rsize);
+    sendsize = MAX(sendsize,ssize);
+    recvsize = MAX(recvsize,rsize);
   }
 
   // remap uses I=fast, J=mid, K=slow, b/c current permute=0
-- 
2.43.0


From e78234aa1fafea0df14228ccc374fdf9319efd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:17 +0000
Subject: [PATCH 05/22] fix: tune() must choose the same settings on all procs,
 not from each proc's own clock

---
 src/fft2d.cpp | 8 ++++++++
 src/fft3d.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index ed6b4dd..c34910b 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -863,6 +863,10 @@ void FFT2d::tune(int user_nfast, int user_nslow,
         deallocate_setup();
         if (memoryflag) deallocate_setup_memory();
         
+        // all procs must make same choice, so use timing of proc 0
+
+        MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
         if (tfft[ntrial] < besttime) {
           besttime = tfft[ntrial];
           cbest = cflag;
@@ -903,6 +907,10 @@ void FFT2d::tune(int user_nfast, int user_nslow,
       deallocate_setup();
       if (memoryflag) deallocate_setup_memory();
       
+      // all procs must make same choice, so use timing of proc 0
+
+      MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
       if (tfft[ntrial] < besttime) {
         besttime = tfft[ntrial];
         pbest = pflag;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index fe77448..567eadd 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -915,6 +915,10 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
         deallocate_setup();
         if (memoryflag) deallocate_setup_memory();
         
+        // all procs must make same choice, so use timing of proc 0
+
+        MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
         if (tfft[ntrial] < besttime) {
           besttime = tfft[ntrial];
           cbest = cflag;
@@ -958,6 +962,10 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
       deallocate_setup();
       if (memoryflag) deallocate_setup_memory();
       
+      // all procs must make same choice, so use timing of proc 0
+
+      MPI_Bcast(&tfft[ntrial],1,MPI_DOUBLE,0,world);
+
       if (tfft[ntrial] < besttime) {
         besttime = tfft[ntrial];
         pbest = pflag;
-- 
2.43.0


From 706fbbdf7cad198cce8ec2ae161e28038c9c5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:17 +0000
Subject: [PATCH 06/22] fix: 2d memcpy pack/unpack must use the size of the FFT
 data type

---
 src/pack2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack2d.h b/src/pack2d.h
index d296efc..433d0ef 100644
--- a/src/pack2d.h
+++ b/src/pack2d.h
@@ -322,7 +322,7 @@ static void pack_2d_memcpy(PACK_DATA *data, PACK_DATA *buf,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(buf[slow*nfast]);
     out = &(data[slow*nstride]);
@@ -346,7 +346,7 @@ static void unpack_2d_memcpy(PACK_DATA *buf, PACK_DATA *data,
   nslow = plan->nslow;
   nstride = plan->nstride;
 
-  size = nfast*sizeof(double);
+  size = nfast*sizeof(PACK_DATA);
   for (slow = 0; slow < nslow; slow++) {
     in = &(data[slow*nstride]);
     out = &(buf[slow*nfast]);
-- 
2.43.0


From 2b741ea3ddc74341cafa27114ab93a69ad855912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:17 +0000
Subject: [PATCH 07/22] fix: inverse FFT must scale the data it returns, which
 is in the initial layout

---
 src/fft2d.cpp | 4 ++--
 src/fft3d.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index c34910b..ff45352 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -411,7 +411,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 2 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set for setup_ffts() to use to setup scaling
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -428,7 +428,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 567eadd..f60dcc6 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -437,7 +437,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (exchange) fftsize = MAX(fftsize,bricksize);
 
   // setup for 3 sets of 1d FFTs, also scaling normalization
-  // outsize must be already set for setup_ffts() to use to setup scaling
+  // insize must be already set for setup_ffts() to use to setup scaling
   // norm must allow for nfast*nmid*nslow to exceed a 4-byte int (2B)
 
   fft_fast = new FFT1d;
@@ -459,7 +459,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   setup_ffts();
 
   norm = 1.0/((bigint) nfast * nmid*nslow);
-  normnum = outsize;
+  normnum = insize;
 
   // allocate sendbuf, recvbuf arrays to max sizes needed by any remap
 
-- 
2.43.0


From cce26918812f133f5b58821091ed76d05e60ef85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:31 +0000
Subject: [PATCH 08/22] fix: only_one_remap() must copy data to out when the
 last remap is not needed

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index ff45352..a7e9bde 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -641,6 +641,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_fastslow) remap(in,out,remap_fastslow);
     } else if (which == 3) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -651,6 +652,7 @@ void FFT2d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_slowfast) remap(in,out,remap_slowfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index f60dcc6..31377f0 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -686,6 +686,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midslow) remap(in,out,remap_midslow);
     } else if (which == 4) {
       if (remap_postslow) remap(in,out,remap_postslow);
+      else if (in != out) memcpy(out,in,2*outsize*sizeof(FFT_SCALAR));
     }
 
   } else {
@@ -698,6 +699,7 @@ void FFT3d::only_one_remap(FFT_SCALAR *in, FFT_SCALAR *out, int flag, int which)
       if (remap_midfast) remap(in,out,remap_midfast);
     } else if (which == 1) {
       if (remap_postfast) remap(in,out,remap_postfast);
+      else if (in != out) memcpy(out,in,2*insize*sizeof(FFT_SCALAR));
     }
   }
 }
-- 
2.43.0


From d068724b4ab52de523a2bf09e9636535ac4d57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:09 +0000
Subject: [PATCH 09/22] fix: destroying a plan before setup() must not use
 uninitialized state

---
 src/fft2d.cpp   | 23 +++++------------------
 src/fft3d.cpp   |  6 +++---
 src/remap2d.cpp | 12 +++++++++---
 src/remap3d.cpp | 12 +++++++++---
 4 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index a7e9bde..2d6c088 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -177,30 +177,17 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
 FFT2d::~FFT2d()
 {
-  delete memory;
-  delete error;
-
   delete [] primes;
   delete [] factors;
 
-  deallocate_remap(remap_prefast);
-  deallocate_remap(remap_fastslow);
-  deallocate_remap(remap_postslow);
-
-  deallocate_remap(remap_preslow);
-  deallocate_remap(remap_slowfast);
-  deallocate_remap(remap_postfast);
-
-  deallocate_ffts();
-  delete fft_fast;
-  delete fft_slow;
+  if (setupflag) deallocate_setup();
 
   // only deallocated send/recv bufs if allocated internally
 
-  if (memoryflag) {
-    memory->sfree(sendbuf);
-    memory->sfree(recvbuf);
-  }
+  if (memoryflag) deallocate_setup_memory();
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 31377f0..121965a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -183,14 +183,14 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
 FFT3d::~FFT3d()
 {
-  delete memory;
-  delete error;
-
   delete [] primes;
   delete [] factors;
 
   if (setupflag) deallocate_setup();
   if (memoryflag) deallocate_setup_memory();
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 92028f2..9383aed 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -90,7 +90,13 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  newcomm = MPI_COMM_NULL;
+  pgroup = NULL;
+  sendcnts = recvcnts = senddispls = recvdispls = NULL;
+  sendmap = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
@@ -102,9 +108,6 @@ Remap2d::Remap2d(MPI_Comm user_comm)
 
 Remap2d::~Remap2d()
 {
-  delete memory;
-  delete error;
-
   // free new MPI communicator for collective comm
 
   if (collective) {
@@ -144,6 +147,9 @@ Remap2d::~Remap2d()
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 948056e..67b739b 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -90,7 +90,13 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   request = NULL;
   unpackplan = NULL;
 
+  newcomm = MPI_COMM_NULL;
+  pgroup = NULL;
+  sendcnts = recvcnts = senddispls = recvdispls = NULL;
+  sendmap = recvmap = NULL;
+
   memusage = 0;
+  memoryflag = 0;
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
@@ -102,9 +108,6 @@ Remap3d::Remap3d(MPI_Comm user_comm)
 
 Remap3d::~Remap3d()
 {
-  delete memory;
-  delete error;
-
   // free new MPI communicator for collective comm
 
   if (collective) {
@@ -144,6 +147,9 @@ Remap3d::~Remap3d()
     memory->sfree(sendbuf);
     memory->sfree(recvbuf);
   }
+
+  delete memory;
+  delete error;
 }
 
 /* ----------------------------------------------------------------------
-- 
2.43.0


From 4bc7c84e7c8ee13255956f61031350fd6bda0fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:09 +0000
Subject: [PATCH 10/22] fix: 2d FFT setup() must reject a second setup, as the
 3d FFT does

---
 src/fft2d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 2d6c088..b6f1672 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -221,6 +221,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
 {
   int flag,allflag;
 
+  if (setupflag) error->all("FFT is already setup");
   setupflag = 1;
 
   // internal copies of input params
-- 
2.43.0


From 1968f099f226f475177412394dfdea4a668128fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:52 +0000
Subject: [PATCH 11/22] fix: FFT setup() must reject a permute value that has
 no meaning

---
 src/fft2d.cpp | 2 ++
 src/fft3d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index b6f1672..0f46805 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -245,6 +245,8 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   if (!prime_factorable(nfast)) error->all("Invalid nfast");
   if (!prime_factorable(nslow)) error->all("Invalid nslow");
 
+  if (permute < 0 || permute > 1) error->all("Invalid permute setting for FFT");
+
   // error checks in indices and tiling
 
   flag = 0;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 121965a..20196d0 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -254,6 +254,8 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   if (!prime_factorable(nmid)) error->all("Invalid nmid");
   if (!prime_factorable(nslow)) error->all("Invalid nslow");
 
+  if (permute < 0 || permute > 2) error->all("Invalid permute setting for FFT");
+
   // error checks in indices and tiling
 
   flag = 0;
-- 
2.43.0


From 6cd38856a4ff63ccea2c265119a2741efe780fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:52 +0000
Subject: [PATCH 12/22] fix: report every failed memory allocation instead of
 using a NULL pointer

---
 src/fft2d.cpp   | 7 +++++++
 src/fft3d.cpp   | 8 ++++++++
 src/kissfft.h   | 6 +++---
 src/remap2d.cpp | 3 +++
 src/remap3d.cpp | 3 +++
 5 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 0f46805..91c9fa2 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -717,6 +717,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data array");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -845,6 +846,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data array");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -889,6 +891,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data array");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
@@ -1463,6 +1466,10 @@ void FFT2d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward ||
+      !fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not allocate 1d FFT plans");
 }
 
 void FFT2d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 20196d0..6b6188a 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -778,6 +778,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
   if (user_fftsize > maxfftsize) {
     data = (FFT_SCALAR *) 
       memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+    if (!data) error->one("Could not allocate tune data array");
     for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
     maxfftsize = user_fftsize;
   }
@@ -908,6 +909,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
         if (user_fftsize > maxfftsize) {
           data = (FFT_SCALAR *) 
             memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+          if (!data) error->one("Could not allocate tune data array");
           for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
           maxfftsize = user_fftsize;
         }
@@ -955,6 +957,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
       if (user_fftsize > maxfftsize) {
         data = (FFT_SCALAR *) 
           memory->srealloc(data,user_fftsize*2*sizeof(FFT_SCALAR));
+        if (!data) error->one("Could not allocate tune data array");
         for (int i = 2*maxfftsize; i < 2*user_fftsize; i++) data[i] = 0.0;
         maxfftsize = user_fftsize;
       }
@@ -1679,6 +1682,11 @@ void FFT3d::setup_ffts()
     fft_slow->plan_forward = kiss_fft_alloc(nslow,0,NULL,NULL);
     fft_slow->plan_backward = kiss_fft_alloc(nslow,1,NULL,NULL);
   }
+
+  if (!fft_fast->plan_forward || !fft_fast->plan_backward ||
+      !fft_mid->plan_forward || !fft_mid->plan_backward ||
+      !fft_slow->plan_forward || !fft_slow->plan_backward)
+    error->one("Could not allocate 1d FFT plans");
 }
 
 void FFT3d::perform_ffts(FFT_DATA *data, int flag, FFT1d *plan)
diff --git a/src/kissfft.h b/src/kissfft.h
index b7964b1..59f3389 100644
--- a/src/kissfft.h
+++ b/src/kissfft.h
@@ -436,7 +436,8 @@ static kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse_fft, void *mem, size_t
 {
     kiss_fft_cfg st=NULL;
     size_t memneeded = sizeof(struct kiss_fft_state)
-        + sizeof(FFT_DATA)*(nfft-1); /* twiddle factors */
+        + sizeof(FFT_DATA)*(nfft-1) /* twiddle factors */
+        + sizeof(FFT_DATA)*nfft; /* temp buffer for in-place FFTs */
 
     if (lenmem==NULL) {
         st=(kiss_fft_cfg)KISS_FFT_MALLOC( memneeded );
@@ -466,10 +467,9 @@ static void kiss_fft_stride(kiss_fft_cfg st, const FFT_DATA *fin, FFT_DATA *fout
     if (fin == fout) {
         // NOTE: this is not really an in-place FFT algorithm
         // just performs an out-of-place FFT into a temp buffer
-        FFT_DATA * tmpbuf = (FFT_DATA*)KISS_FFT_TMP_ALLOC( sizeof(FFT_DATA)*st->nfft);
+        FFT_DATA * tmpbuf = st->twiddles + st->nfft;
         kf_work(tmpbuf,fin,1,in_stride, st->factors,st);
         memcpy(fout,tmpbuf,sizeof(FFT_DATA)*st->nfft);
-        KISS_FFT_TMP_FREE(tmpbuf);
     }else{
         kf_work( fout, fin, 1,in_stride, st->factors,st );
     }
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 9383aed..803b328 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -395,9 +395,11 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag) error->one("Could not allocate pflag");
     for (i = 0; i < nprocs; i++) pflag[i] = 0;
 
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pgroup) error->one("Could not allocate pgroup");
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -450,6 +452,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (!pgroup && ngroup) error->one("Could not allocate pgroup");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 67b739b..1dbef4f 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -442,9 +442,11 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // allocate pgroup as large as all procs
 
     int *pflag = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pflag) error->one("Could not allocate pflag");
     for (i = 0; i < nprocs; i++) pflag[i] = 0;
 
     pgroup = (int *) memory->smalloc(nprocs*sizeof(int));
+    if (!pgroup) error->one("Could not allocate pgroup");
     ngroup = 0;
 
     // add procs to pgroup that I send to and recv from, including self
@@ -497,6 +499,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
     // recreate sorted pgroup from pflag
 
     pgroup = (int *) memory->srealloc(pgroup,ngroup*sizeof(int));
+    if (!pgroup && ngroup) error->one("Could not allocate pgroup");
 
     ngroup = 0;
     for (i = 0; i < nprocs; i++) 
-- 
2.43.0


From bdf632010fd93f9a4824a1da0afaf97951073264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:33 +0000
Subject: [PATCH 13/22] fix: Fortran interface must pass setup_memory() buffers
 by value

---
 src/fft2d_wrap.f90 | 2 +-
 src/fft3d_wrap.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft2d_wrap.f90 b/src/fft2d_wrap.f90
index afe43d9..b7a1494 100644
--- a/src/fft2d_wrap.f90
+++ b/src/fft2d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft2d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft2d_setup_memory
 
   subroutine fft2d_compute(ptr,in,out,flag) bind(c)
diff --git a/src/fft3d_wrap.f90 b/src/fft3d_wrap.f90
index f6ccc2a..f80082a 100644
--- a/src/fft3d_wrap.f90
+++ b/src/fft3d_wrap.f90
@@ -99,7 +99,7 @@ interface
   subroutine fft3d_setup_memory(ptr,sendbuf,recvbuf) bind(c)
     use iso_c_binding
     type(c_ptr), value :: ptr
-    type(c_ptr) :: sendbuf,recvbuf
+    type(c_ptr), value :: sendbuf,recvbuf
   end subroutine fft3d_setup_memory
 
   subroutine fft3d_compute(ptr,in,out,flag) bind(c)
-- 
2.43.0


From 260bb3b74deb0c94104b00e10d13ac1bb1fb0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:33 +0000
Subject: [PATCH 14/22] fix: C/Fortran get functions must return the documented
 tuning results

---
 src/fft2d_wrap.cpp | 4 ++++
 src/fft3d_wrap.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fft2d_wrap.cpp b/src/fft2d_wrap.cpp
index 4cf3f8c..e3db922 100644
--- a/src/fft2d_wrap.cpp
+++ b/src/fft2d_wrap.cpp
@@ -91,6 +91,9 @@ int fft2d_get_int(void *ptr, const char *keyword)
   else if (strcmp(keyword,"npbrick2") == 0) return fft->npbrick2;
   else if (strcmp(keyword,"ntrial") == 0) return fft->ntrial;
   else if (strcmp(keyword,"npertrial") == 0) return fft->npertrial;
+  else if (strcmp(keyword,"cbest") == 0) return fft->cbest;
+  else if (strcmp(keyword,"ebest") == 0) return fft->ebest;
+  else if (strcmp(keyword,"pbest") == 0) return fft->pbest;
 
   return -1;
 }
@@ -104,6 +107,7 @@ double fft2d_get_double(void *ptr, const char *keyword)
   FFT2d *fft = (FFT2d *) ptr;
 
   if (strcmp(keyword,"setuptime") == 0) return fft->setuptime;
+  else if (strcmp(keyword,"besttime") == 0) return fft->besttime;
 
   return -1.0;
 }
diff --git a/src/fft3d_wrap.cpp b/src/fft3d_wrap.cpp
index 9bc1411..33449de 100644
--- a/src/fft3d_wrap.cpp
+++ b/src/fft3d_wrap.cpp
@@ -98,6 +98,9 @@ int fft3d_get_int(void *ptr, const char *keyword)
   else if (strcmp(keyword,"npbrick3") == 0) return fft->npbrick3;
   else if (strcmp(keyword,"ntrial") == 0) return fft->ntrial;
   else if (strcmp(keyword,"npertrial") == 0) return fft->npertrial;
+  else if (strcmp(keyword,"cbest") == 0) return fft->cbest;
+  else if (strcmp(keyword,"ebest") == 0) return fft->ebest;
+  else if (strcmp(keyword,"pbest") == 0) return fft->pbest;
 
   return -1;
 }
@@ -111,6 +114,7 @@ double fft3d_get_double(void *ptr, const char *keyword)
   FFT3d *fft = (FFT3d *) ptr;
 
   if (strcmp(keyword,"setuptime") == 0) return fft->setuptime;
+  else if (strcmp(keyword,"besttime") == 0) return fft->besttime;
 
   return -1.0;
 }
-- 
2.43.0


From 94618e1027d96d339962c369906eaccf81bebb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:33 +0000
Subject: [PATCH 15/22] fix: 2d FFT must start with the documented defaults and
 defined tuning results

---
 src/fft2d.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 91c9fa2..03c41dc 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -85,7 +85,7 @@ typedef int64_t bigint;
        style of data exchanges
        0 = pencil to pencil
        1 = brick to pencil and pencil to brick
-     packflag = 0/1/2 (default = 0)
+     packflag = 0/1/2 (default = 2)
        style of pack/unpack methods for remapping data
        0 = array
        1 = pointer
@@ -121,7 +121,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   collective = 2;
   exchange = 0;
-  packflag = 0;
+  packflag = 2;
   memoryflag = 1;
 
   // default settings
@@ -130,6 +130,12 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
   scaled = 1;
   remaponly = 0;
 
+  // tuning results
+
+  ntrial = npertrial = 0;
+  cbest = ebest = pbest = -1;
+  besttime = 0.0;
+
   // Memory and Error classes
 
   memory = new Memory();
-- 
2.43.0


From 283ae313e87182a15e28889d4809bc7e3bf98468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:52 +0000
Subject: [PATCH 16/22] fix: changing a setup-time option after setup() must
 have no effect

---
 src/fft2d.cpp   | 6 ++++--
 src/fft2d.h     | 1 +
 src/fft3d.cpp   | 6 ++++--
 src/fft3d.h     | 1 +
 src/remap2d.cpp | 8 +++++---
 src/remap2d.h   | 1 +
 src/remap3d.cpp | 8 +++++---
 src/remap3d.h   | 1 +
 8 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index 03c41dc..bff7f72 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -175,6 +175,7 @@ FFT2d::FFT2d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  use_memoryflag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -190,7 +191,7 @@ FFT2d::~FFT2d()
 
   // only deallocated send/recv bufs if allocated internally
 
-  if (memoryflag) deallocate_setup_memory();
+  if (use_memoryflag) deallocate_setup_memory();
 
   delete memory;
   delete error;
@@ -241,6 +242,7 @@ void FFT2d::setup(int user_nfast, int user_nslow,
   out_jlo = user_out_jlo; out_jhi = user_out_jhi;
 
   permute = user_permute;
+  use_memoryflag = memoryflag;
 
   // all dimensions must be >= 2
   // all dimensions must be factorable
@@ -492,7 +494,7 @@ void FFT2d::deallocate_setup()
 void FFT2d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (use_memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft2d.h b/src/fft2d.h
index 411da1f..aab95dc 100644
--- a/src/fft2d.h
+++ b/src/fft2d.h
@@ -63,6 +63,7 @@ class FFT2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int use_memoryflag;               // memoryflag when setup() was called
 
   class Memory *memory;
   class Error *error;
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 6b6188a..05e18f3 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -175,6 +175,7 @@ FFT3d::FFT3d(MPI_Comm user_comm, int user_precision)
 
   setupflag = 0;
   setup_memory_flag = 0;
+  use_memoryflag = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -187,7 +188,7 @@ FFT3d::~FFT3d()
   delete [] factors;
 
   if (setupflag) deallocate_setup();
-  if (memoryflag) deallocate_setup_memory();
+  if (use_memoryflag) deallocate_setup_memory();
 
   delete memory;
   delete error;
@@ -243,6 +244,7 @@ void FFT3d::setup(int user_nfast, int user_nmid, int user_nslow,
   out_klo = user_out_klo; out_khi = user_out_khi;
 
   permute = user_permute;
+  use_memoryflag = memoryflag;
 
   // all dimensions must be >= 2
   // all dimensions must be factorable
@@ -532,7 +534,7 @@ void FFT3d::deallocate_setup()
 void FFT3d::setup_memory(FFT_SCALAR *user_sendbuf, FFT_SCALAR *user_recvbuf)
 {
   if (!setupflag) error->all("Cannot setup FFT memory before setup");
-  if (memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
+  if (use_memoryflag) error-> all("Cannot setup FFT memory with memoryflag set");
 
   setup_memory_flag = 1;
   sendbuf = user_sendbuf;
diff --git a/src/fft3d.h b/src/fft3d.h
index 17ba5ee..11b697f 100644
--- a/src/fft3d.h
+++ b/src/fft3d.h
@@ -68,6 +68,7 @@ class FFT3d {
  private:
   int me,nprocs;
   int setupflag,setup_memory_flag;
+  int use_memoryflag;               // memoryflag when setup() was called
 
   class Memory *memory;
   class Error *error;
diff --git a/src/remap2d.cpp b/src/remap2d.cpp
index 803b328..d5c3d8a 100644
--- a/src/remap2d.cpp
+++ b/src/remap2d.cpp
@@ -100,6 +100,7 @@ Remap2d::Remap2d(MPI_Comm user_comm)
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
+  use_collective = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -110,7 +111,7 @@ Remap2d::~Remap2d()
 {
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (use_collective) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -132,7 +133,7 @@ Remap2d::~Remap2d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (use_collective) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -186,6 +187,7 @@ void Remap2d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  use_collective = collective;
 
   // store parameters in local data structs
 
@@ -602,7 +604,7 @@ void Remap2d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!use_collective) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap2d.h b/src/remap2d.h
index 52a3c57..04b76cf 100644
--- a/src/remap2d.h
+++ b/src/remap2d.h
@@ -38,6 +38,7 @@ class Remap2d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag;
+  int use_collective;     // collective setting when setup() was called
 
   class Memory *memory;
   class Error *error;
diff --git a/src/remap3d.cpp b/src/remap3d.cpp
index 1dbef4f..110990e 100644
--- a/src/remap3d.cpp
+++ b/src/remap3d.cpp
@@ -100,6 +100,7 @@ Remap3d::Remap3d(MPI_Comm user_comm)
   sendbuf = recvbuf = NULL;
 
   setupflag = 0;
+  use_collective = 0;
 }
 
 /* ----------------------------------------------------------------------
@@ -110,7 +111,7 @@ Remap3d::~Remap3d()
 {
   // free new MPI communicator for collective comm
 
-  if (collective) {
+  if (use_collective) {
     if (newcomm != MPI_COMM_NULL) MPI_Comm_free(&newcomm);
     memory->sfree(pgroup);
   }
@@ -132,7 +133,7 @@ Remap3d::~Remap3d()
 
   // free internal arrays for collective commm
     
-  if (collective) {
+  if (use_collective) {
     memory->sfree(sendcnts);
     memory->sfree(recvcnts);
     memory->sfree(senddispls);
@@ -191,6 +192,7 @@ void Remap3d::setup(int in_ilo, int in_ihi, int in_jlo, int in_jhi,
 
   permute = user_permute;
   memoryflag = user_memoryflag;
+  use_collective = collective;
 
   // store parameters in local data structs
 
@@ -649,7 +651,7 @@ void Remap3d::remap(FFT_SCALAR *in, FFT_SCALAR *out,
 
   // point-to-point remap communication
 
-  if (!collective) {
+  if (!use_collective) {
 
     // post all recvs into scratch space
 
diff --git a/src/remap3d.h b/src/remap3d.h
index afc58d8..c9573e1 100644
--- a/src/remap3d.h
+++ b/src/remap3d.h
@@ -39,6 +39,7 @@ class Remap3d {
   MPI_Comm world;
   int me,nprocs;
   int setupflag;
+  int use_collective;     // collective setting when setup() was called
 
   class Memory *memory;
   class Error *error;
-- 
2.43.0


From c6aec14cd2beab5547a48dfad6814d87af0baa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:02 +0000
Subject: [PATCH 17/22] fix: tune() must report the time of its first run that
 besttime is taken from

besttime is proc 0's time of the initial run on every proc, but tfft[0] was
each proc's own, so with a single trial besttime was no trial's time.
---
 src/fft2d.cpp | 1 +
 src/fft3d.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/fft2d.cpp b/src/fft2d.cpp
index bff7f72..2772f15 100644
--- a/src/fft2d.cpp
+++ b/src/fft2d.cpp
@@ -745,6 +745,7 @@ void FFT2d::tune(int user_nfast, int user_nslow,
 
   MPI_Bcast(&timesetup,1,MPI_DOUBLE,0,world);
   MPI_Bcast(&timefft,1,MPI_DOUBLE,0,world);
+  tfft[0] = timefft;
 
   // for tmax = time limit > 0.0
   // use single iteration timing to setup sequence of tuning runs
diff --git a/src/fft3d.cpp b/src/fft3d.cpp
index 05e18f3..cb038cd 100644
--- a/src/fft3d.cpp
+++ b/src/fft3d.cpp
@@ -800,6 +800,7 @@ void FFT3d::tune(int user_nfast, int user_nmid, int user_nslow,
 
   MPI_Bcast(&timesetup,1,MPI_DOUBLE,0,world);
   MPI_Bcast(&timefft,1,MPI_DOUBLE,0,world);
+  tfft[0] = timefft;
 
   // for tmax = time limit > 0.0
   // use single iteration timing to setup sequence of tuning runs
-- 
2.43.0


From 830f0c2aabf24769dccc8332bee77c7ebe65b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:15 +0000
Subject: [PATCH 18/22] fix: flush the error message before MPI_Abort() kills
 the process

---
 src/error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/error.cpp b/src/error.cpp
index e34476a..5ba95a1 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -55,6 +55,7 @@ void Error::one(const char *str)
   int me;
   MPI_Comm_rank(world,&me);
   printf("ERROR on proc %d: %s\n",me,str);
+  fflush(stdout);
   MPI_Abort(world,1);
 }
 
-- 
2.43.0


From e81db921779ebcfde7c945c44fde4109f592cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:27 +0000
Subject: [PATCH 19/22] fix: Python setup_memory() must use the caller's
 arrays, not undefined variables

---
 src/fftmpi.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 4b7a2d4..c36ff1f 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -210,11 +210,11 @@ class FFT3dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft3d_setup_memory(self.fft,csendbuf,crecvbuf)
       
@@ -464,11 +464,11 @@ class FFT2dMPI:
       sys.exit()
       
     if self.precision == 1:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_float))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_float))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_float))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_float))
     else:
-      csendbuf = csendbuf.ctypes.data_as(POINTER(c_double))
-      crecvbuf = crecvbuf.ctypes.data_as(POINTER(c_double))
+      csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
+      crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
     self.lib.fft2d_setup_memory(self.fft,csendbuf,crecvbuf)
       
-- 
2.43.0


From 42b943ffa0f8ad22707b9e23c87bed641b600131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:27 +0000
Subject: [PATCH 20/22] fix: Python Remap classes must call the C interface
 with its actual arguments

---
 src/fftmpi.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index c36ff1f..7c57769 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -574,7 +574,7 @@ class Remap3dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap3d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap3d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap3d_create.restype = None
 
     self.lib.remap3d_destroy.argtypes = [c_void_p]
@@ -586,7 +586,7 @@ class Remap3dMPI:
     self.lib.remap3d_setup.argtypes = \
       [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,
        c_int,c_int,c_int,c_int,c_int,c_int,
-       c_int,c_int,c_int,POINTER(c_int)]
+       c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap3d_setup.restype = None
     
     if precision == 1:
@@ -597,14 +597,14 @@ class Remap3dMPI:
       self.lib.remap3d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
            POINTER(c_double),POINTER(c_double)]
-    self.lib.remap3d_compute.restype = None
+    self.lib.remap3d_remap.restype = None
 
     # create an instance of Remap3d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap3d
   
@@ -623,9 +623,14 @@ class Remap3dMPI:
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
@@ -678,7 +683,7 @@ class Remap2dMPI:
     if mpi4pyflag and MPI._sizeof(comm) == sizeof(c_int): MPI_Comm = c_int
     else: MPI_Comm = c_void_p
 
-    self.lib.remap2d_create.argtypes = [MPI_Comm,c_int,POINTER(c_void_p)]
+    self.lib.remap2d_create.argtypes = [MPI_Comm,POINTER(c_void_p)]
     self.lib.remap2d_create.restype = None
 
     self.lib.remap2d_destroy.argtypes = [c_void_p]
@@ -689,7 +694,7 @@ class Remap2dMPI:
     
     self.lib.remap2d_setup.argtypes = \
     [c_void_p,c_int,c_int,c_int,c_int,c_int,c_int,c_int,c_int,
-        c_int,c_int,c_int,POINTER(c_int)]
+        c_int,c_int,c_int,POINTER(c_int),POINTER(c_int)]
     self.lib.remap2d_setup.restype = None
     
     if precision == 1:
@@ -700,14 +705,14 @@ class Remap2dMPI:
       self.lib.remap2d_remap.argtypes = \
         [c_void_p,POINTER(c_double),POINTER(c_double),
          POINTER(c_double),POINTER(c_double)]
-    self.lib.remap2d_compute.restype = None
+    self.lib.remap2d_remap.restype = None
 
     # create an instance of Remap2d
 
     self.remap = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,precision,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.remap))
 
   # destroy instance of Remap2d
   
@@ -725,9 +730,14 @@ class Remap2dMPI:
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
+    sendsize = c_int()
+    recvsize = c_int()
     self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
-                           nqty,permute,memoryflag,sendsize,recvsize)
+                           nqty,permute,memoryflag,
+                           byref(sendsize),byref(recvsize))
+    sendsize = sendsize.value
+    recvsize = recvsize.value
     return sendsize,recvsize
       
   # remap
-- 
2.43.0


From 5ffbdce42371fd175d50110f0f0cde3746c6d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:27 +0000
Subject: [PATCH 21/22] fix: deleting a Python object after destroy() must not
 raise an error

---
 src/fftmpi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index 7c57769..b3a056b 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -149,7 +149,7 @@ class FFT3dMPI:
   # destroy instance of fftMPI
   
   def __del__(self):
-    self.lib.fft3d_destroy(self.fft)
+    if self.lib: self.lib.fft3d_destroy(self.fft)
 
   def destroy(self):
     self.lib.fft3d_destroy(self.fft)
@@ -405,7 +405,7 @@ class FFT2dMPI:
   # destroy instance of fftMPI
   
   def __del__(self):
-    self.lib.fft2d_destroy(self.fft)
+    if self.lib: self.lib.fft2d_destroy(self.fft)
 
   def destroy(self):
     self.lib.fft2d_destroy(self.fft)
@@ -609,7 +609,7 @@ class Remap3dMPI:
   # destroy instance of Remap3d
   
   def __del__(self):
-    self.lib.remap3d_destroy(self.remap)
+    if self.lib: self.lib.remap3d_destroy(self.remap)
 
   def destroy(self):
     self.lib.remap3d_destroy(self.remap)
@@ -717,7 +717,7 @@ class Remap2dMPI:
   # destroy instance of Remap2d
   
   def __del__(self):
-    self.lib.remap2d_destroy(self.remap)
+    if self.lib: self.lib.remap2d_destroy(self.remap)
 
   def destroy(self):
     self.lib.remap2d_destroy(self.remap)
-- 
2.43.0


From 822995e3ddd455e0913f514d69a173b5f7cd73a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:13 +0000
Subject: [PATCH 22/22] fix: Python Remap handle must not hide the remap()
 method

---
 src/fftmpi.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/fftmpi.py b/src/fftmpi.py
index b3a056b..6ecd5f6 100644
--- a/src/fftmpi.py
+++ b/src/fftmpi.py
@@ -601,31 +601,31 @@ class Remap3dMPI:
 
     # create an instance of Remap3d
 
-    self.remap = c_void_p()
+    self.rmp = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap3d_create(comm_value,byref(self.remap))
+    self.lib.remap3d_create(comm_value,byref(self.rmp))
 
   # destroy instance of Remap3d
   
   def __del__(self):
-    if self.lib: self.lib.remap3d_destroy(self.remap)
+    if self.lib: self.lib.remap3d_destroy(self.rmp)
 
   def destroy(self):
-    self.lib.remap3d_destroy(self.remap)
+    self.lib.remap3d_destroy(self.rmp)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap3d_set(self.remap,keyword,value)
+    self.lib.remap3d_set(self.rmp,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
             out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
             nqty,permute,memoryflag):
     sendsize = c_int()
     recvsize = c_int()
-    self.lib.remap3d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
+    self.lib.remap3d_setup(self.rmp,in_ilo,in_ihi,in_jlo,in_jhi,in_klo,in_khi,
                            out_ilo,out_ihi,out_jlo,out_jhi,out_klo,out_khi,
                            nqty,permute,memoryflag,
                            byref(sendsize),byref(recvsize))
@@ -654,7 +654,7 @@ class Remap3dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap3d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap3d_remap(self.rmp,cin,cout,csendbuf,crecvbuf)
 
 # ------------------------------------------------------------------
 # instantiate remap2dMPI thru its C-interface
@@ -709,30 +709,30 @@ class Remap2dMPI:
 
     # create an instance of Remap2d
 
-    self.remap = c_void_p()
+    self.rmp = c_void_p()
     comm_ptr = MPI._addressof(comm)
     comm_value = MPI_Comm.from_address(comm_ptr)
-    self.lib.remap2d_create(comm_value,byref(self.remap))
+    self.lib.remap2d_create(comm_value,byref(self.rmp))
 
   # destroy instance of Remap2d
   
   def __del__(self):
-    if self.lib: self.lib.remap2d_destroy(self.remap)
+    if self.lib: self.lib.remap2d_destroy(self.rmp)
 
   def destroy(self):
-    self.lib.remap2d_destroy(self.remap)
+    self.lib.remap2d_destroy(self.rmp)
     self.lib = None
 
   # setup
 
   def set(self,keyword,value):
-    self.lib.remap2d_set(self.remap,keyword,value)
+    self.lib.remap2d_set(self.rmp,keyword,value)
 
   def setup(self,in_ilo,in_ihi,in_jlo,in_jhi,
             out_ilo,out_ihi,out_jlo,out_jhi,nqty,permute,memoryflag):
     sendsize = c_int()
     recvsize = c_int()
-    self.lib.remap2d_setup(self.remap,in_ilo,in_ihi,in_jlo,in_jhi,
+    self.lib.remap2d_setup(self.rmp,in_ilo,in_ihi,in_jlo,in_jhi,
                            out_ilo,out_ihi,out_jlo,out_jhi,
                            nqty,permute,memoryflag,
                            byref(sendsize),byref(recvsize))
@@ -761,4 +761,4 @@ class Remap2dMPI:
       csendbuf = sendbuf.ctypes.data_as(POINTER(c_double))
       crecvbuf = recvbuf.ctypes.data_as(POINTER(c_double))
       
-    self.lib.remap2d_remap(self.remap,cin,cout,csendbuf,crecvbuf)
+    self.lib.remap2d_remap(self.rmp,cin,cout,csendbuf,crecvbuf)
-- 
2.43.0

