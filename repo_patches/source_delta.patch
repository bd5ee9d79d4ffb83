From 0eaa57d4eda2fd65509fa6f44ae4bafbf3bb8e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 1/5] fix: end the command with an error when a SAC file cannot
 be written

---
 pygrt/C_extension/src/common/sacio.c  | 5 ++++-
 pygrt/C_extension/src/common/sacio.c_ | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/common/sacio.c b/pygrt/C_extension/src/common/sacio.c
index e56193a..9def5ff 100644
--- a/pygrt/C_extension/src/common/sacio.c
+++ b/pygrt/C_extension/src/common/sacio.c
@@ -54,7 +54,10 @@ SACTRACE * grt_new_SACTRACE(float dt, int nt, float b0)
 
 int grt_write_SACTRACE(const char *path, SACTRACE *sac)
 {
-    return write_sac(path, sac->hd, sac->data);
+    if (write_sac(path, sac->hd, sac->data) != 0) {
+        GRTRaiseError("write %s failed.\n", path);
+    }
+    return 0;
 }
 
 
diff --git a/pygrt/C_extension/src/common/sacio.c_ b/pygrt/C_extension/src/common/sacio.c_
index e6dbd1b..9659355 100644
--- a/pygrt/C_extension/src/common/sacio.c_
+++ b/pygrt/C_extension/src/common/sacio.c_
@@ -241,7 +241,10 @@ int write_sac(const char *name, SACHEAD hd, const float *ar)
         fclose(strm);
         return -1;
     }
-    fclose(strm);
+    if (fclose(strm) != 0) {
+        fprintf(stderr, "Error in closing SAC file %s\n", name);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 23050092462a1e52d18bcb47c1d5b6e9257dd33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:09 +0000
Subject: [PATCH 2/5] fix: end the command with an error when a statistics,
 kernel, copied or command file cannot be written

---
 pygrt/C_extension/src/common/util.c           |  4 +++-
 pygrt/C_extension/src/dynamic/grt_greenfn.c   |  4 +++-
 pygrt/C_extension/src/dynamic/grt_kernel.c    | 10 +++++++---
 .../C_extension/src/integral/integ_process.c  | 20 +++++++++++++------
 pygrt/C_extension/src/integral/iostats.c      | 16 +++++++++++----
 pygrt/C_extension/src/modal/grt_modsum.c      |  4 +++-
 6 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index b452898..790bcb2 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -379,7 +379,9 @@ void grt_copy_file(const char *src, const char *dst)
     }
 
     fclose(fin);
-    fclose(fout);
+    if(fclose(fout) != 0){
+        GRTRaiseError("Failed to write copy of \"%s\" to \"%s\".\n", src, dst);
+    }
 }
 
 
diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 82257c0..a2ae393 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -823,7 +823,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
         fprintf(fp, "%s ", argv[i]);
     }
     fprintf(fp, "\n");
-    fclose(fp);
+    if(fclose(fp) != 0){
+        GRTRaiseError("Failed to write \"%s\".", dummy);
+    }
     GRT_SAFE_FREE_PTR(dummy);
 
 }
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 0474c1e..5c92f48 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -365,7 +365,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
         fprintf(fp, "%s ", argv[i]);
     }
     fprintf(fp, "\n");
-    fclose(fp);
+    if(fclose(fp) != 0){
+        GRTRaiseError("Failed to write \"%s\".", dummy);
+    }
     GRT_SAFE_FREE_PTR(dummy);
 }
 
@@ -434,7 +436,7 @@ int kernel_main(int argc, char **argv)
         FILE *fstats = NULL;
         char *fname = NULL;
         GRT_SAFE_ASPRINTF(&fname, "%s/C_%04zu_%.5e", s_output_dir, iw, freq);
-        fstats = fopen(fname, "wb");
+        fstats = GRTCheckOpenFile(fname, "wb");
         GRT_SAFE_FREE_PTR(fname);
 
         // 不同震源不同阶数的核函数 F(k, w) 
@@ -461,7 +463,9 @@ int kernel_main(int argc, char **argv)
             grt_write_stats(fstats, cc, (Ctrl->e.active)? QWV_uiz : QWV);
         }
 
-        fclose(fstats);
+        if(fclose(fstats) != 0){
+            GRTRaiseError("Failed to write kernel file (iw=%zu).", iw);
+        }
 
         grt_free_mod1d_state(local_mstat);
 
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index 9945af0..eac8516 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -17,6 +17,14 @@
 
 
 
+/** 关闭积分记录文件，检查缓冲区是否完整写入 */
+static void close_fstats(FILE *fp)
+{
+    if(fclose(fp) != 0){
+        GRTRaiseError("Failed to write wavenumber integration statsfile.");
+    }
+}
+
 void grt_KPROC_init_fstats(
     const size_t nr, const real_t *rs, 
     const char *statsstr, const char *suffix, K_INTEG_PROCESS *Kproc)
@@ -32,7 +40,7 @@ void grt_KPROC_init_fstats(
     Kproc->ptam_fstatsnr = (FILE *(*)[2])calloc(nr, sizeof(*Kproc->ptam_fstatsnr));
     char *fname = NULL;
     GRT_SAFE_ASPRINTF(&fname, "%s/K%s", statsstr, suffix);
-    Kproc->fstats = fopen(fname, "wb");
+    Kproc->fstats = GRTCheckOpenFile(fname, "wb");
 
     // PTAM的积分中间结果，每个震中距两个文件，保持现有统计文件布局
     // 在文件名后加后缀，区分不同震中距
@@ -45,9 +53,9 @@ void grt_KPROC_init_fstats(
 
             Kproc->ptam_fstatsnr[ir][0] = Kproc->ptam_fstatsnr[ir][1] = NULL;
             GRT_SAFE_ASPRINTF(&fname, "%s/K%s", ptam_dirname, suffix);
-            Kproc->ptam_fstatsnr[ir][0] = fopen(fname, "wb");
+            Kproc->ptam_fstatsnr[ir][0] = GRTCheckOpenFile(fname, "wb");
             GRT_SAFE_ASPRINTF(&fname, "%s/PTAM%s", ptam_dirname, suffix);
-            Kproc->ptam_fstatsnr[ir][1] = fopen(fname, "wb");
+            Kproc->ptam_fstatsnr[ir][1] = GRTCheckOpenFile(fname, "wb");
         }
     }
     
@@ -58,15 +66,15 @@ void grt_KPROC_init_fstats(
 
 void grt_KPROC_destroy_fstats(const size_t nr, K_INTEG_PROCESS *Kproc)
 {
-    if(Kproc->fstats!=NULL) fclose(Kproc->fstats);
+    if(Kproc->fstats!=NULL) close_fstats(Kproc->fstats);
 
     if(Kproc->ptam_fstatsnr != NULL){
         for(size_t ir=0; ir<nr; ++ir){
             if(Kproc->ptam_fstatsnr[ir][0]!=NULL){
-                fclose(Kproc->ptam_fstatsnr[ir][0]);
+                close_fstats(Kproc->ptam_fstatsnr[ir][0]);
             }
             if(Kproc->ptam_fstatsnr[ir][1]!=NULL){
-                fclose(Kproc->ptam_fstatsnr[ir][1]);
+                close_fstats(Kproc->ptam_fstatsnr[ir][1]);
             }
         }
         GRT_SAFE_FREE_PTR(Kproc->ptam_fstatsnr);
diff --git a/pygrt/C_extension/src/integral/iostats.c b/pygrt/C_extension/src/integral/iostats.c
index 156d43c..0d102f4 100755
--- a/pygrt/C_extension/src/integral/iostats.c
+++ b/pygrt/C_extension/src/integral/iostats.c
@@ -17,15 +17,23 @@
 
 
 
+/** 写入一个元素，失败则报错退出 */
+static void write_item(const void *ptr, size_t size, FILE *f0)
+{
+    if(1 != fwrite(ptr, size, 1, f0)){
+        GRTRaiseError("Failed to write wavenumber integration statsfile.");
+    }
+}
+
 void grt_write_stats(FILE *f0, real_t k, const cplxChnlGrid QWV)
 {
-    fwrite(&k, sizeof(real_t), 1, f0);
+    write_item(&k, sizeof(real_t), f0);
 
     GRT_LOOP_ChnlGrid(im, c){
         int modr = GRT_SRC_M_ORDERS[im];
         if(modr == 0 && GRT_QWV_CODES[c] == 'v')   continue;
 
-        fwrite(&QWV[im][c], sizeof(cplx_t), 1, f0);
+        write_item(&QWV[im][c], sizeof(cplx_t), f0);
     }
 }
 
@@ -78,8 +86,8 @@ void grt_write_stats_ptam(
             int modr = GRT_SRC_M_ORDERS[im];
             if(modr == 0 && v!=0 && v!=2)  continue;
 
-            fwrite(&Kpt[i][im][v], sizeof(real_t),  1, f0);
-            fwrite(&Fpt[i][im][v], sizeof(cplx_t), 1, f0);
+            write_item(&Kpt[i][im][v], sizeof(real_t), f0);
+            write_item(&Fpt[i][im][v], sizeof(cplx_t), f0);
         }
     }
 }
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 755a52e..424a7ce 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -648,7 +648,9 @@ int modsum_main(int argc, char **argv){
         fprintf(fp, "%s ", argv[i]);
     }
     fprintf(fp, "\n");
-    fclose(fp);
+    if(fclose(fp) != 0){
+        GRTRaiseError("Failed to write \"%s\".", dummy);
+    }
     GRT_SAFE_FREE_PTR(dummy);
 
     bool doEX = Ctrl->G.doEX;
-- 
2.43.0


From 5164d0398bb9a949822e69b14df520f460032ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:00 +0000
Subject: [PATCH 3/5] fix: reject option values that are empty or contain no
 number

---
 pygrt/C_extension/src/common/util.c           | 4 +++-
 pygrt/C_extension/src/dynamic/grt_greenfn.c   | 9 ++++++---
 pygrt/C_extension/src/dynamic/grt_kernel.c    | 2 +-
 pygrt/C_extension/src/dynamic/grt_syn.c       | 4 ++--
 pygrt/C_extension/src/modal/grt_eigenfn.c     | 4 ++--
 pygrt/C_extension/src/modal/grt_eigenv.c      | 4 ++--
 pygrt/C_extension/src/modal/grt_modsum.c      | 2 +-
 pygrt/C_extension/src/static/grt_static_syn.c | 2 +-
 pygrt/C_extension/src/tools/grt_disp2asc.c    | 2 +-
 pygrt/C_extension/src/tools/grt_travt.c       | 4 +++-
 10 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/pygrt/C_extension/src/common/util.c b/pygrt/C_extension/src/common/util.c
index 790bcb2..f1b373b 100644
--- a/pygrt/C_extension/src/common/util.c
+++ b/pygrt/C_extension/src/common/util.c
@@ -99,7 +99,9 @@ real_t *grt_parse_real_array(const char *optarg, size_t *size, char ***s_values,
 
     real_t *values = (real_t *)calloc(n, sizeof(real_t));
     for(size_t i = 0; i < n; ++i){
-        values[i] = atof(s_vals[i]);
+        if(1 != sscanf(s_vals[i], "%lf", &values[i])){
+            GRTRaiseError("-%c: \"%s\" is not a number.", optname, s_vals[i]);
+        }
         if(values[i] < 0.0){
             GRTRaiseError("-%c: negative value (%f) is not supported.", optname, values[i]);
         }
diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index a2ae393..0277ba2 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -483,7 +483,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
+                    if(token == NULL || 2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
                     };
                     if(Ctrl->N.nt <= 0 || Ctrl->N.dt <= 0.0){
@@ -636,7 +636,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(E, "Can't set positive t0(%f) in -Ep.", Ctrl->E.delayT0);
                     }
                 } else {
-                    if(0 == sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
+                    if(1 > sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
                         GRTBadOptionError(E, "");
                     };
                     if(Ctrl->E.delayV0 < 0.0){
@@ -766,7 +766,10 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     // 转为浮点数
                     Ctrl->S.statsidxs = (size_t*)realloc(Ctrl->S.statsidxs, sizeof(size_t)*(Ctrl->S.nstatsidxs));
                     for(size_t i=0; i<Ctrl->S.nstatsidxs; ++i){
-                        int tmp = atoi(Ctrl->S.s_statsidxs[i]);
+                        int tmp = 0;
+                        if(1 != sscanf(Ctrl->S.s_statsidxs[i], "%d", &tmp)){
+                            GRTBadOptionError(S, "\"%s\" is not an index.", Ctrl->S.s_statsidxs[i]);
+                        }
                         if(tmp < 0){
                             GRTBadOptionError(S, "index (%d) can't negative.", tmp);
                         }
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index 5c92f48..fca17ed 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -231,7 +231,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
-                    if(3 != sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df)){
+                    if(token == NULL || 3 != sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df)){
                         GRTBadOptionError(F, "");
                     };
                     if(df <= 0){
diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index c81057a..d70556c 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -296,7 +296,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
             // 方位角
             case 'A':
                 Ctrl->A.active = true;
-                if(0 == sscanf(optarg, "%lf", &Ctrl->A.azimuth)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->A.azimuth)){
                     GRTBadOptionError(A, "");
                 };
                 if(Ctrl->A.azimuth < 0.0 || Ctrl->A.azimuth > 360.0){
@@ -318,7 +318,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         *upos = ' ';
                     }
                 }
-                if(0 == sscanf(optarg, "%lf", &Ctrl->S.M0)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->S.M0)){
                     GRTBadOptionError(S, "");
                 };
                 break;
diff --git a/pygrt/C_extension/src/modal/grt_eigenfn.c b/pygrt/C_extension/src/modal/grt_eigenfn.c
index 1ec2b62..cf03a83 100644
--- a/pygrt/C_extension/src/modal/grt_eigenfn.c
+++ b/pygrt/C_extension/src/modal/grt_eigenfn.c
@@ -215,7 +215,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     real_t a1, a2, df;
                     a1 = a2 = 0;
                     df = 1;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL)? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 2 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
@@ -340,7 +340,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(strlen(token) == 0){
+                    if(token == NULL || strlen(token) == 0){
                         GRTBadOptionError(W, "");
                     }
                     Ctrl->W.s_egn_filepath = strdup(token);
diff --git a/pygrt/C_extension/src/modal/grt_eigenv.c b/pygrt/C_extension/src/modal/grt_eigenv.c
index ae5b2b5..4670c02 100644
--- a/pygrt/C_extension/src/modal/grt_eigenv.c
+++ b/pygrt/C_extension/src/modal/grt_eigenv.c
@@ -248,7 +248,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     char *token = strtok(string, "+");
                     real_t a1, a2, df;
                     a1 = a2 = df = 0;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL)? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
@@ -310,7 +310,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
                     real_t fx = -1.0;
-                    if(1 != sscanf(token, "%lf", &fx)){
+                    if(token == NULL || 1 != sscanf(token, "%lf", &fx)){
                         GRTBadOptionError(X, "");
                     }
                     if(fx <= 0){
diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 424a7ce..fb97e6f 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -345,7 +345,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         GRTBadOptionError(E, "Can't set positive t0(%f) in -Ep.", Ctrl->E.delayT0);
                     }
                 } else {
-                    if(0 == sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
+                    if(1 > sscanf(optarg, "%lf/%lf", &Ctrl->E.delayT0, &Ctrl->E.delayV0)){
                         GRTBadOptionError(E, "");
                     };
                     if(Ctrl->E.delayV0 < 0.0){
diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index aa07e37..e179f0f 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -362,7 +362,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                         *upos = ' ';
                     }
                 }
-                if(0 == sscanf(optarg, "%lf", &Ctrl->S.M0)){
+                if(1 != sscanf(optarg, "%lf", &Ctrl->S.M0)){
                     GRTBadOptionError(S, "");
                 };
                 break;
diff --git a/pygrt/C_extension/src/tools/grt_disp2asc.c b/pygrt/C_extension/src/tools/grt_disp2asc.c
index 253e2f0..0f49e52 100644
--- a/pygrt/C_extension/src/tools/grt_disp2asc.c
+++ b/pygrt/C_extension/src/tools/grt_disp2asc.c
@@ -168,7 +168,7 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     real_t a1, a2, df;
                     a1 = a2 = 0;
                     df = 1;
-                    int nscan = sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
+                    int nscan = (token == NULL)? 0 : sscanf(token, "%lf/%lf/%lf", &a1, &a2, &df);
                     if( !(nscan == 1 || nscan == 2 || nscan == 3)){
                         GRTBadOptionError(F, "");
                     };
diff --git a/pygrt/C_extension/src/tools/grt_travt.c b/pygrt/C_extension/src/tools/grt_travt.c
index e24b3dc..0f659de 100644
--- a/pygrt/C_extension/src/tools/grt_travt.c
+++ b/pygrt/C_extension/src/tools/grt_travt.c
@@ -187,7 +187,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                     // 转为浮点数
                     Ctrl->R.rs = (real_t*)realloc(Ctrl->R.rs, sizeof(real_t)*(Ctrl->R.nr));
                     for(size_t i=0; i<Ctrl->R.nr; ++i){
-                        Ctrl->R.rs[i] = atof(Ctrl->R.s_rs[i]);
+                        if(1 != sscanf(Ctrl->R.s_rs[i], "%lf", &Ctrl->R.rs[i])){
+                            GRTBadOptionError(R, "\"%s\" is not a number.", Ctrl->R.s_rs[i]);
+                        }
                         if(Ctrl->R.rs[i] < 0.0){
                             GRTBadOptionError(R, "Can't set negative epicentral distance(%f).", Ctrl->R.rs[i]);
                         }
-- 
2.43.0


From 1955e5eb9ffe4dfe10a7a63e98a4c80f456c5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:00 +0000
Subject: [PATCH 4/5] fix: reject negative sample counts, nonpositive velocity
 step and nonphysical medium in options

---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 13 ++++++++-----
 pygrt/C_extension/src/dynamic/grt_kernel.c  |  3 +++
 pygrt/C_extension/src/okada/grt_okada.c     |  3 +++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 0277ba2..77da2aa 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -483,24 +483,27 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
                 {
                     char *string = strdup(optarg);
                     char *token = strtok(string, "+");
-                    if(token == NULL || 2 != sscanf(token, "%zu/%lf", &Ctrl->N.nt, &Ctrl->N.dt)){
+                    ssize_t tmp = 0;  // 有符号，以便识别负数
+                    if(token == NULL || 2 != sscanf(token, "%zd/%lf", &tmp, &Ctrl->N.dt)){
                         GRTBadOptionError(N, "");
                     };
-                    if(Ctrl->N.nt <= 0 || Ctrl->N.dt <= 0.0){
+                    if(tmp <= 0 || Ctrl->N.dt <= 0.0){
                         GRTBadOptionError(N, "Nonpositive value in -N is not supported.");
                     }
+                    Ctrl->N.nt = (size_t)tmp;
 
                     // 处理 + 号指令
                     token = strtok(NULL, "+");
                     while(token != NULL){
                         switch (token[0]){
                             case 'n':
-                                if(1 != sscanf(token+1, "%zu", &Ctrl->N.upsample_n)){
+                                if(1 != sscanf(token+1, "%zd", &tmp)){
                                     GRTBadOptionError(N, "");
                                 }
-                                if(Ctrl->N.upsample_n <= 0){
-                                    GRTBadOptionError(N, "+%s need positive integer, but get (%zu).", token, Ctrl->N.upsample_n);
+                                if(tmp <= 0){
+                                    GRTBadOptionError(N, "+%s need positive integer, but get (%zd).", token, tmp);
                                 }
+                                Ctrl->N.upsample_n = (size_t)tmp;
                                 break;
 
                             case 'w':
diff --git a/pygrt/C_extension/src/dynamic/grt_kernel.c b/pygrt/C_extension/src/dynamic/grt_kernel.c
index fca17ed..bcf6641 100644
--- a/pygrt/C_extension/src/dynamic/grt_kernel.c
+++ b/pygrt/C_extension/src/dynamic/grt_kernel.c
@@ -311,6 +311,9 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv)
                         if(Ctrl->C.cmin <= 0.0 || Ctrl->C.cmax <= 0.0){
                             GRTBadOptionError(C, "Can't set nonpositive cmin(%lf), cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
+                        if(Ctrl->C.dc <= 0.0){
+                            GRTBadOptionError(C, "Can't set nonpositive dc(%lf).", Ctrl->C.dc);
+                        }
                         if(Ctrl->C.cmin >= Ctrl->C.cmax){
                             GRTBadOptionError(C, "cmin(%lf) >= cmax(%lf).", Ctrl->C.cmin, Ctrl->C.cmax);
                         }
diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index ddc4711..810a337 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -233,6 +233,9 @@ static void parse_command(GRT_MODULE_CTRL *ctrl, int argc, char **argv)
                 if(sscanf(optarg, "%lf/%lf/%lf%c", &ctrl->I.vp, &ctrl->I.vs, &ctrl->I.rho, &extra) != 3){
                     GRTBadOptionError(I, "expected vp/vs/rho.");
                 }
+                if(ctrl->I.vp <= 0.0 || ctrl->I.vs < 0.0 || ctrl->I.rho <= 0.0){
+                    GRTBadOptionError(I, "vp and rho must be positive, vs must be nonnegative.");
+                }
                 ctrl->I.active = true;
                 break;
             }
-- 
2.43.0


From 47844b5580892225161694ad4716f4adb7d708f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:01 +0000
Subject: [PATCH 5/5] fix: reject finite faults that reach above the free
 surface

---
 pygrt/C_extension/src/common/finite_fault.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index cf66b3d..64c57ba 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -24,6 +24,9 @@ static void check_fault_geometry(const FINITE_FAULT *f, const char *where)
     if(f->dip <= 0.0 || f->dip > 90.0){
         GRTRaiseError("%s: dip (%.6g deg) must be in (0, 90].", where, f->dip);
     }
+    if(f->top < 0.0){
+        GRTRaiseError("%s: top (%.6g km) must not be above the free surface.", where, f->top);
+    }
     if(!(f->bot > f->top)){
         GRTRaiseError("%s: bot (%.6g km) must be greater than top (%.6g km).", where, f->bot, f->top);
     }
-- 
2.43.0

