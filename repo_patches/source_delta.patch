From 42844b4578553e761c9d3f27288420c51dca2d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 01/56] fix: decode NRT models with the current record layout
 in export_change_map

The copied dtype still described 5 observations and the removed cm_outputs
fields, so index_sccdpack raised ValueError for every pixel in monitor mode.
---
 src/python/pycold/imagetool/export_change_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..e91ee8d 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
-- 
2.43.0


From ac1d2a51648dd3efd2b3a6f0ccbcdff410330020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 02/56] fix: sccd_detect passed b_monitor_init as the
 predictability threshold

_sccd_detect takes predictability_tcg in that position, so the default
b_monitor_init=False ran every offline detection with a threshold of 0.
---
 src/python/pycold/colds.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..c09a0e9 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -312,6 +312,7 @@ def sccd_detect(
     b_pinpoint=False,
     gate_tcg=9.236,
     b_monitor_init=False,
+    predictability_tcg=9.236,
 ):
     """
     pixel-based offline SCCD algorithm.
@@ -339,6 +340,8 @@ def sccd_detect(
                         and threshold = gate_tcg, which are used to simulate the situation of NRT scenario and
                         for training a machine-learning model
     gate_tcg: the gate change magnitude threshold for defining anomaly
+    b_monitor_init: bool, reserved; the native detector has no such option yet
+    predictability_tcg: the threshold for predictability test
     Note that passing 2-d array to c as 2-d pointer does not work, so have to pass separate bands
     Returns
     ----------
@@ -355,6 +358,7 @@ def sccd_detect(
         b_pinpoint=b_pinpoint,
         gate_tcg=gate_tcg,
         b_monitor_init=b_monitor_init,
+        predictability_tcg=predictability_tcg,
     )
     # make sure it is c contiguous array and 64 bit
     dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas = _validate_data(
@@ -381,7 +385,7 @@ def sccd_detect(
         b_c2,
         b_pinpoint,
         gate_tcg,
-        b_monitor_init,
+        predictability_tcg,
     )
 
 
-- 
2.43.0


From 50678e7469e217393e071ab09216ffd7e61bec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 03/56] fix: validate the thermal series dimension and the
 options left without a constraint

---
 src/python/pycold/colds.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index c09a0e9..0ff03f3 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -19,6 +19,9 @@ _parameter_constraints: dict = {
     "n_cm": [Interval(Integral, 0, None, closed="left")],
     "conse": [Interval(Integral, 0, 12, closed="neither")],
     "b_output_cm": ["boolean"],
+    "cm_output_interval": [Interval(Integral, 0, None, closed="left")],
+    "b_c2": ["boolean"],
+    "b_monitor_init": ["boolean"],
     "gap_days": [Interval(Real, 0.0, None, closed="left")],
     "b_pinpoint": ["boolean"],
     "gate_tcg": [Interval(Real, 0.0, None, closed="neither")],
@@ -79,6 +82,7 @@ def _validate_data(dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break
     check_1d(ts_n, "ts_n")
     check_1d(ts_s1, "ts_s1")
     check_1d(ts_s2, "ts_s2")
+    check_1d(ts_t, "ts_t")
     check_1d(qas, "qas")
     if break_dates is not None:
         check_1d(break_dates, "break_dates")
@@ -285,7 +289,7 @@ def obcold_reconstruct(
     ----------
     change records: the COLD outputs that characterizes each temporal segment
     """
-    _validate_params(func_name="sccd_detect", pos=pos, conse=conse, b_c2=b_c2)
+    _validate_params(func_name="obcold_reconstruct", pos=pos, conse=conse, b_c2=b_c2)
     dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break_dates = _validate_data(
         dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas, break_dates
     )
-- 
2.43.0


From b94ef3b2e7b06f684b0369fcd0a66c02c1a7e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 04/56] fix: report an error instead of reallocating the
 caller's record array

---
 src/cxx/cold.c | 105 ++++++++++---------------------------------------
 1 file changed, 20 insertions(+), 85 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..44d25c0 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -1356,18 +1356,8 @@ int stand_procedure_fixeddays
                     *num_fc = *num_fc + 1;
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+                        RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
                     }
                 }
             } /* end of initializing model */
@@ -2034,18 +2024,8 @@ int stand_procedure_fixeddays
 
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+                        RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
                     }
 
                     /**********************************************/
@@ -2464,18 +2444,8 @@ int stand_procedure_fixeddays
             //*num_fc = *num_fc + 1;
             if (*num_fc >= NUM_FC)
             {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
+                /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+                RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
             }
         }else{
            *num_fc = *num_fc - 1;
@@ -3756,18 +3726,8 @@ int stand_procedure
                     *num_fc = *num_fc + 1;
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+                        RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
                     }
                 }
             } /* end of initializing model */
@@ -4355,18 +4315,8 @@ int stand_procedure
 
                     if (*num_fc >= NUM_FC)
                     {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
+                        /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+                        RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
                     }
 
                     /**********************************************/
@@ -4706,18 +4656,8 @@ int stand_procedure
             //*num_fc = *num_fc + 1;
             if (*num_fc >= NUM_FC)
             {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
+                /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+                RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
             }
         }else{
            *num_fc = *num_fc - 1;
@@ -5136,19 +5076,8 @@ int inefficientobs_procedure
 
         if (*num_fc >= NUM_FC)
         {
-
-            /******************************************************/
-            /*                                                    */
-            /* Reallocate memory for rec_cg.                      */
-            /*                                                    */
-            /******************************************************/
-
-            rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-            if (rec_cg == NULL)
-            {
-                RETURN_ERROR("ERROR allocating rec_cg memory",
-                             FUNC_NAME, FAILURE);
-            }
+            /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+            RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
         }
     }  // if sn_pct > T_SN
 
@@ -5769,6 +5698,12 @@ int obcold_reconstruction_procedure
                 }
             }
 
+            if (*num_fc >= NUM_FC)
+            {
+                /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+                RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, FAILURE);
+            }
+
             rec_cg[*num_fc].t_start = clrx[i_last_break];
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
-- 
2.43.0


From f48f4cbbaa010e263a50c7c06343193e9b089e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 05/56] fix: obcold_reconstruction_procedure used an unset snow
 ratio and dropped the status of the inefficient-observation procedure

---
 src/cxx/cold.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 44d25c0..c80e231 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5487,9 +5487,15 @@ int obcold_reconstruction_procedure
 
     break_list = (int* )malloc(break_date_len * sizeof(int));
 
+    sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
+
     if (clear_sum < N_TIMES * MAX_NUM_C){
         result = inefficientobs_procedure(valid_num_scenes,valid_date_array, buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
                                  fmask_buf, id_range,sn_pct,rec_cg, num_fc, b_c2);
+        if (result != SUCCESS)
+        {
+            RETURN_ERROR("ERROR calling inefficientobs_procedure", FUNC_NAME, FAILURE);
+        }
     }else
     {
         /**************************************************************/
@@ -5804,6 +5810,10 @@ int obcold_reconstruction_procedure
         if(*num_fc == 0){ // apply inefficient procedure to force to have a model
             result = inefficientobs_procedure(valid_num_scenes,valid_date_array, buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
                                      fmask_buf, id_range,sn_pct,rec_cg, num_fc, b_c2);
+            if (result != SUCCESS)
+            {
+                RETURN_ERROR("ERROR calling inefficientobs_procedure", FUNC_NAME, FAILURE);
+            }
         }
     }
 
-- 
2.43.0


From b15d059dc7f615865f66663a3d13f637f1af6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 06/56] fix: inefficient-observation fit wrote every thermal
 value to the first element

---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c80e231..df8415b 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5112,10 +5112,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
-- 
2.43.0


From efb80631055586da765fca0c76fadb9ecc4f7503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 07/56] fix: sorting for the green median separated green
 values from their dates

---
 src/cxx/cold.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index df8415b..7339e8e 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5135,8 +5135,17 @@ int inefficientobs_procedure
 
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
+        /* sort for the median only: every value has to stay with its date */
+        float *band2_copy = (float *)malloc(end * sizeof(float));
+        if (band2_copy == NULL)
+        {
+            RETURN_ERROR ("Allocating band2_copy memory", FUNC_NAME, FAILURE);
+        }
+        memcpy(band2_copy, clry[1], end * sizeof(float));
         quick_sort_float(clry[1], 0, end - 1);
         matlab_2d_float_median(clry, 1, end, &band2_median);
+        memcpy(clry[1], band2_copy, end * sizeof(float));
+        free(band2_copy);
 
         n_clr = 0;
         for (i = 0; i < end; i++)
-- 
2.43.0


From 0c817c396c8ed6841abd22a03062abd58a38bccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 08/56] fix: snow fit kept the dates compacted for an earlier
 band

---
 src/cxx/cold.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 7339e8e..80ba592 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4942,6 +4942,13 @@ int inefficientobs_procedure
 
         i_start = 1; /* the first observation for TSFit */
 
+        /* dates of the unsaturated observations, they differ from band to band */
+        int *clrx_span = (int *)malloc(end * sizeof(int));
+        if (clrx_span == NULL)
+        {
+            RETURN_ERROR ("Allocating clrx_span memory", FUNC_NAME, FAILURE);
+        }
+
         /**********************************************************/
         /*                                                        */
         /* Treat saturated and unsaturated pixels differently.    */
@@ -4958,7 +4965,7 @@ int inefficientobs_procedure
                 {
                     if (clry[k][i] > 0.0 && clry[k][i] < 10000.0)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_span[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
@@ -4971,7 +4978,7 @@ int inefficientobs_procedure
                 }
                 else
                 {
-                    status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                    status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
                              fit_cft, &rmse[k], temp_v_dif);
 
                     if (status != SUCCESS)
@@ -4987,13 +4994,13 @@ int inefficientobs_procedure
                     //printf("clry: %f\n", (float)clry[k][i]);
                     if (clry[k][i] > -9320 && clry[k][i] < 7070)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_span[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
                  }
 
-                status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
                          fit_cft, &rmse[k], temp_v_dif);
 
                 if (status != SUCCESS)
@@ -5002,7 +5009,7 @@ int inefficientobs_procedure
 
               }
         }
-
+        free(clrx_span);
 
         /**********************************************************/
         /*                                                        */
-- 
2.43.0


From 700be6de4cfe70a184f03cb898272bea35ba8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 09/56] fix: S-CCD wrote records past the caller's fixed-size
 arrays

---
 src/cxx/s_ccd.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..8791939 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1838,6 +1838,12 @@ int step2_KF_ChangeDetection(
                 current_pinpoint = *num_fc_pinpoint - 1;
             }
 
+            if (current_pinpoint >= NUM_FC)
+            {
+                /* rec_cg_pinpoint is the caller's array of NUM_FC records, it cannot grow */
+                RETURN_ERROR("The number of pinpoint records exceeds NUM_FC", FUNC_NAME, ERROR);
+            }
+
             if (break_mag > CM_outputs[current_CM_n])
             // if ((*num_fc_pinpoint == 0) | (clrx[cur_i] - rec_cg_pinpoint[*num_fc_pinpoint - 1].t_break > AVE_DAYS_IN_A_YEAR))// must has a gap of 1 year with the last pinpoint break
             {
@@ -1963,6 +1969,11 @@ int step2_KF_ChangeDetection(
 
     if (change_flag == TRUE)
     {
+        if (*num_curve >= NUM_FC)
+        {
+            /* rec_cg is the caller's array of NUM_FC records, it cannot grow */
+            RETURN_ERROR("The number of change records exceeds NUM_FC", FUNC_NAME, ERROR);
+        }
         tmp = (mean_angle * 100);
         if (tmp > MAX_SHORT)
             tmp = MAX_SHORT;
@@ -2854,6 +2865,10 @@ int sccd_standard(
                                               cov_p, fit_cft, rec_cg, sum_square_vt, &num_obs_processed,
                                               t_start, b_pinpoint, rec_cg_pinpoint, num_fc_pinpoint, gate_tcg,
                                               &norm_cm_scale100, &cm_angle_scale100, CM_outputs, T_MAX_CG_SCCD);
+            if (status == ERROR)
+            {
+                RETURN_ERROR("Calling step2_KF_ChangeDetection", FUNC_NAME, FAILURE);
+            }
 
             if (status == CHANGEDETECTED)
             {
-- 
2.43.0


From 73c1767085397e56e7c2c82d9b9af49654c57ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 10/56] fix: a full S-CCD queue dropped its newest observation

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 8791939..17a9cd0 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2517,7 +2517,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From c98a12076b802dac3e84eec4fa6c1239d799831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 11/56] fix: pinpoint window read observations past the end of
 the series

---
 src/cxx/s_ccd.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 17a9cd0..da9c0c3 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1883,6 +1883,16 @@ int step2_KF_ChangeDetection(
                     rec_cg_pinpoint[current_pinpoint].norm_cm[conse_last - 1] = (short int)min_cm;
                     for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
                     {
+                        if (cur_i + k > *n_clr - 1)
+                        {
+                            /* the series ends before the window does */
+                            for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
+                            {
+                                rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = 0;
+                            }
+                            rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = 0;
+                            continue;
+                        }
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         {
                             rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
-- 
2.43.0


From 6d603ffa22342ad1f478dd2321ee7652d7191a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 12/56] fix: S-CCD ignored the failures of its initialization
 and ending steps

---
 src/cxx/s_ccd.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index da9c0c3..2bc6203 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -376,7 +376,7 @@ int step1_ssm_initialize(
     }
 
     clry_extend = (float *)malloc((stable_nobs * 2 + 1) * sizeof(float));
-    if (clrx_extend == NULL)
+    if (clry_extend == NULL)
     {
         RETURN_ERROR("Allocating clry_extend memory", FUNC_NAME, FAILURE);
     }
@@ -2806,6 +2806,10 @@ int sccd_standard(
                                                &prev_i_break, rmse_ini);
             }
 
+            if ((status != INCOMPLETE) && (status != SUCCESS))
+            {
+                RETURN_ERROR("Calling step1_cold_initialize", FUNC_NAME, FAILURE);
+            }
             if (INCOMPLETE == status)
             {
                 i++;
@@ -2847,8 +2851,12 @@ int sccd_standard(
                     /*  initialize a and p                                        */
                     /*                                                            */
                     /**************************************************************/
-                    step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, i, fit_cft, cov_p[i_b],
-                                         i_b, &sum_square_vt[i_b], n_clr);
+                    status = step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, i, fit_cft, cov_p[i_b],
+                                                  i_b, &sum_square_vt[i_b], n_clr);
+                    if (status != SUCCESS)
+                    {
+                        RETURN_ERROR("Calling step1_ssm_initialize", FUNC_NAME, FAILURE);
+                    }
                 }
                 num_obs_processed = i - i_start + 1;
                 t_start = clrx[i_start];
@@ -3067,6 +3075,10 @@ int sccd_standard(
                                   i_start, prev_i_break, nrt_model, num_obs_queue,
                                   obs_queue, sum_square_vt, num_obs_processed, t_start,
                                   conse, min_rmse, gate_tcg, change_detected, predictability_tcg);
+    if (status != SUCCESS)
+    {
+        RETURN_ERROR("Calling step3_processing_end", FUNC_NAME, FAILURE);
+    }
 
     // update mode - condition 4
     //    if ((*nrt_mode % 10 == NRT_MONITOR_STANDARD) && (bl_train == 0))
@@ -3291,8 +3303,12 @@ int sccd_snow(
             /*  initialize a and p                                        */
             /*                                                            */
             /**************************************************************/
-            step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, n_clr - 1,
-                                 fit_cft, cov_p[i_b], i_b, &sum_square_vt[i_b], n_clr);
+            status = step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, n_clr - 1,
+                                          fit_cft, cov_p[i_b], i_b, &sum_square_vt[i_b], n_clr);
+            if (status != SUCCESS)
+            {
+                RETURN_ERROR("Calling step1_ssm_initialize", FUNC_NAME, FAILURE);
+            }
             nrt_model[0].H[i_b] = instance[i_b].H;
         }
 
-- 
2.43.0


From 8288e9933dc58cccad4eadd0b5509016af69eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 13/56] fix: the variogram of a single observation was set for
 the first band only

---
 src/cxx/misc.c  | 6 +++---
 src/cxx/s_ccd.c | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..2b7c948 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -109,18 +109,18 @@ int adjust_median_variogram
        for(i = 0; i < dim1_len; i++)
        {
            output_array[i] = 0;
+       }
        *date_vario = 0;
        return (SUCCESS);
-       }
     }
     if (dim2_len == 1)
     {
         for (i = 0; i < dim1_len; i++)
         {
             output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
         }
+        *date_vario = clrx[dim2_start];
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 2bc6203..188f888 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -234,6 +234,10 @@ int sccd(
                     status = adjust_median_variogram(clrx, clry, TOTAL_IMAGE_BANDS_SCCD, 0,
                                                      n_clr - 1, &date_vario, &max_date_difference,
                                                      min_rmse_float, 1);
+                    if (status != SUCCESS)
+                    {
+                        RETURN_ERROR("ERROR calling median_variogram routine", FUNC_NAME, FAILURE);
+                    }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         min_rmse[i_b] = (short int)min_rmse_float[i_b];
                 }
-- 
2.43.0


From 968ae8bd3eb02c58ae23baf9ffc112909be9e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 14/56] fix: online S-CCD read the unused slots of the model
 tail as observations

---
 src/cxx/s_ccd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 188f888..a76b62e 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -164,8 +164,9 @@ int sccd(
     }
     else if ((*nrt_mode == NRT_MONITOR_SNOW) | (*nrt_mode % 10 == NRT_MONITOR_STANDARD))
     {
-        //  if monitor mode, will append output_nrtmodel default conse-1 obs
-        for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
+        //  if monitor mode, will append the obs kept in the tail of output_nrtmodel: the snow
+        //  procedure fills every slot, the standard procedure only the first conse of them
+        for (k = 0; k < ((*nrt_mode == NRT_MONITOR_SNOW) ? DEFAULT_CONSE_SCCD : conse); k++)
         {
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
-- 
2.43.0


From b400ae02ecd47a2adf97cdd6f32e2675e3e74a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 15/56] fix: sccd_update let the detector rewrite the caller's
 minimum rmse

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..9ea2d30 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -484,7 +484,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()  # the detector may rewrite it; the caller's pack stays as it was
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From e766d4c421e73542db968082c716bf27a7f9cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 16/56] fix: sccd_update accepted a window longer than the
 native arrays

---
 src/python/pycold/_colds_cython.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 9ea2d30..0421aa2 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -456,6 +456,9 @@ cpdef _sccd_update(sccd_pack,
             nrt_queue: obs queue if queue mode, empty if monitor mode
     """
 
+    if conse > DEFAULT_CONSE:
+        raise RuntimeError("The inputted conse is longer than the maximum conse for S-CCD: {}".format(DEFAULT_CONSE))
+
     cdef int valid_num_scenes = qas.shape[0]
     # allocate memory for rec_cg
     # cdef int num_fc = 0
-- 
2.43.0


From 35cb20d8f8f485fe2fe81d2467066ccf18ceb28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 17/56] fix: the pinpoint buffer of sccd_update leaked whenever
 it raised

---
 src/python/pycold/_colds_cython.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 0421aa2..dfb6206 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -471,7 +471,7 @@ cpdef _sccd_update(sccd_pack,
     cdef int num_fc = len(sccd_pack.rec_cg)
     cdef int num_nrt_queue = len(sccd_pack.nrt_queue)
     cdef int num_fc_pinpoint = 0
-    cdef Output_sccd_pinpoint* rec_cg_pinpoint = <Output_sccd_pinpoint*> PyMem_Malloc(sizeof(t4))
+    rec_cg_pinpoint = np.zeros(1, dtype=pinpoint_dt)  # not filled: pinpoint is off
 
     # grab inputs from the input
     rec_cg_new = np.empty(NUM_FC_SCCD, dtype=sccd_dt)
@@ -503,13 +503,13 @@ cpdef _sccd_update(sccd_pack,
     cdef long [:] ts_s2_view = ts_s2
     cdef long [:] ts_t_view = ts_t
     cdef long [:] qas_view = qas
+    cdef Output_sccd_pinpoint [:] rec_cg_pinpoint_view = rec_cg_pinpoint
 
     result = sccd(&ts_b_view[0], &ts_g_view[0], &ts_r_view[0], &ts_n_view[0], &ts_s1_view[0], &ts_s2_view[0],
                   &ts_t_view[0], &qas_view[0], &dates_view[0], valid_num_scenes, t_cg, &num_fc, &nrt_mode, &rec_cg_view[0],
                   &nrt_model_view[0], &num_nrt_queue, &nrt_queue_view[0], &min_rmse_view[0], conse, b_c2, False,
-                  rec_cg_pinpoint, &num_fc_pinpoint, gate_tcg, predictability_tcg)
+                  &rec_cg_pinpoint_view[0], &num_fc_pinpoint, gate_tcg, predictability_tcg)
 
-    PyMem_Free(rec_cg_pinpoint)
     if result != 0:
         raise RuntimeError("sccd_update function fails for pos = {} ".format(pos))
     else:
-- 
2.43.0


From 730664e2b5c72e91f82b9d403172a856ab565f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 18/56] fix: sccd_detect returned a bare pinpoint array in void
 mode

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index dfb6206..7a7ee99 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -407,7 +407,7 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
                                    SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             elif nrt_mode == 0:  # void mode
                 return [SccdOutput(pos, np.array([]), min_rmse, nrt_mode, np.array([]),
-                                   np.array([])), output_rec_cg_pinpoint]
+                                   np.array([])), SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             else:
                 raise RuntimeError("No correct nrt_mode (mode={}) returned for pos = {} ".format(nrt_mode, pos))
 
-- 
2.43.0


From 8cb3257c46396daa7a94536d4198b4fc7037e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 19/56] fix: change magnitudes were written outside the
 requested n_cm outputs

---
 src/python/pycold/_colds_cython.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 7a7ee99..5fbcfd2 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -193,6 +193,9 @@ cpdef _cold_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates, np.ndarray[np
            starting_date = dates[0]
         if n_cm == 0:
            n_cm = math.ceil((dates[valid_num_scenes-1] - starting_date + 1) / cm_output_interval) + 1
+        # the detector indexes its output by (date - starting_date) / cm_output_interval
+        if starting_date > dates[0] or (dates[valid_num_scenes-1] - starting_date) // cm_output_interval >= n_cm:
+            raise RuntimeError("starting_date, n_cm and cm_output_interval do not cover the observation dates for pos = {}".format(pos))
         cm_outputs = np.full(n_cm, -9999, dtype=np.short)
         cm_outputs_date = np.full(n_cm, -9999, dtype=np.short)
     # set the length to 1 to save memory, as they won't be assigned values
-- 
2.43.0


From 02a7ce3ed28fd376c2e7feaa3c9997a154087181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 20/56] fix: sccd_identify read the model of packs that have
 none

---
 src/python/pycold/colds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 0ff03f3..305844e 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -514,6 +514,8 @@ def sccd_identify(
     if (
         sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
         or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_SNOW"]
+        or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_VOID"]
+        or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_STANDARD"]
         or int(sccd_pack.nrt_mode / 10) == 1
     ):
         return sccd_pack, 0
-- 
2.43.0


From b355be8f0f1152ecaec1e97795a5af7766ccf281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 21/56] fix: Collection 2 readers scaled SWIR2 as temperature
 and the thermal band as reflectance

---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 75ed6a1..1217640 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1009,8 +1009,8 @@ def single_image_stacking(
             B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
             B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
             B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-            B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-            B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+            B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+            B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         # if path_array is not None, we will eliminate those observation that has different path with its assigned path
         if path_array is not None:  # meaning that single-path processing
@@ -1491,8 +1491,8 @@ def single_image_stacking_collection2(
         B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
         B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
         B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-        B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-        B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+        B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+        B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         if is_partition is True:
             # width of a block
-- 
2.43.0


From eb1ab66b359b1b719191b558a19ff8415f6544d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 22/56] fix: assemble_cmmaps numbered block columns by the
 number of block rows

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..bbe763d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From 77b3a45fd64ccb2c7ab5fb0351037968b9b92f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 23/56] fix: a missing change-magnitude block was filled with
 the previous block

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index bbe763d..110d8d3 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -131,7 +131,7 @@ def assemble_cmmaps(
             ).astype(output_type)
         except OSError as e:
             print("Reading CM files fails: {}".format(e))
-        #    continue
+            continue
 
         # if prefix == "CM_date":
         #    cm_block_copy = cm_block.copy()
-- 
2.43.0


From 5ea5df251c0c0b235ae7095ea1ee2b4386da5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 24/56] fix: assemble_array cut the row of blocks by the number
 of block columns

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 110d8d3..52aef4f 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -312,7 +312,7 @@ def assemble_array(array_list, n_block_x):
     """
     full_feature_array = np.hstack(array_list)
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, len(array_list) // n_block_x)  # one piece per row of blocks
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From 7c1167e8ef4c17666aa2b0fa699f20aba2219a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 25/56] fix: export_change_map assembled non-square block grids
 in the wrong layout

---
 src/python/pycold/imagetool/export_change_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index e91ee8d..a9cf982 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -579,7 +579,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -605,7 +605,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
-- 
2.43.0


From 394ed291fa983026878d0079c49620220166c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 26/56] fix: rasters were created with width and height
 exchanged

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a9cf982..f90635a 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -587,7 +587,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -613,7 +613,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -638,7 +638,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -656,7 +656,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 52aef4f..45a295f 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -523,7 +523,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-    outdata = outdriver1.Create(out_path, rows, cols, 1, gdal.GDT_Int32)
+    outdata = outdriver1.Create(out_path, cols, rows, 1, gdal.GDT_Int32)
     outdata.GetRasterBand(1).WriteArray(index)
     outdata.FlushCache()
     outdata.SetGeoTransform(trans)
-- 
2.43.0


From dad29ffd1c0a0602d35e4167c503977f1a42abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 27/56] fix: reporting a failed pixel raised AttributeError and
 ended the block

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 184cd8d..73947bf 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -534,7 +534,7 @@ def main(
                             "COLD fails at original_row {}, original_col {} ({})".format(
                                 original_row,
                                 original_col,
-                                datetime.now.strftime("%Y-%m-%d %H:%M:%S"),
+                                datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
                     except Exception:
-- 
2.43.0


From 91cb8de473b668d5c832a1a2ebb48d8f6502dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 28/56] fix: a failed pixel was given the change magnitudes of
 the pixel before it

---
 src/python/pycold/imagetool/tile_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 73947bf..23f3469 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -537,6 +537,9 @@ def main(
                                 datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
+                        if method == "OBCOLD":
+                            CM = np.full(n_cm_maps, -9999, dtype=np.short)
+                            CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
                     except Exception:
                         if method == "OBCOLD":
                             CM = np.full(n_cm_maps, -9999, dtype=np.short)
-- 
2.43.0


From 2d8efdb22e2b2a09b601febc00a521f56adda7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 29/56] fix: OBCOLD ignored the configured probability
 threshold

---
 src/python/pycold/imagetool/tile_processing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 23f3469..e4f5116 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -505,6 +505,7 @@ def main(
                                 img_tstack[pos, 5, :].astype(np.int64),
                                 img_tstack[pos, 6, :].astype(np.int64),
                                 img_tstack[pos, 7, :].astype(np.int64),
+                                t_cg=threshold,
                                 pos=dataset_info.n_cols * (original_row - 1) + original_col,
                                 conse=conse,
                                 starting_date=starting_date,
-- 
2.43.0


From e4a545499f102591fa89eecbad3c1e0dd5dbc50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 30/56] fix: OBCOLD waited forever for the change date maps
 with fewer than 16 workers

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index e4f5116..58acb5c 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -637,7 +637,7 @@ def main(
                     cm_output_interval,
                     clean=False,
                 )
-            if rank == 16:
+            if rank == min(16, n_cores):
                 assemble_cmmaps(
                     dataset_info,
                     result_path,
-- 
2.43.0


From 2032f25c5953e5e036d41313dba77576ab4c204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 31/56] fix: the default rank of tile_processing processed a
 block 0 and left out the last one

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 58acb5c..18a0659 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -261,7 +261,7 @@ def get_stack_date(
 
 
 @click.command()
-@click.option("--rank", type=int, default=0, help="the rank id")
+@click.option("--rank", type=int, default=1, help="the rank id")
 @click.option("--n_cores", type=int, default=1, help="the total cores assigned")
 @click.option("--stack_path", type=str, help="the path for stack data")
 @click.option("--result_path", type=str, help="the path for storing results")
-- 
2.43.0


From 7209dce9f5f715504b91f57eb315acfca3d289f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 32/56] fix: a block without images in the date range ended the
 worker

---
 src/python/pycold/imagetool/tile_processing.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 18a0659..b54fb45 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -238,15 +238,13 @@ def get_stack_date(
         )
         for folder_name in img_files
     ]
+    files_date_zip = sorted(zip(img_dates, img_files))
     if low_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] >= low_datebound, zip(img_dates, img_files))
-        )
+        files_date_zip = [x for x in files_date_zip if x[0] >= low_datebound]
     if high_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] <= high_datebound, zip(img_dates, img_files))
-        )
-    files_date_zip = sorted(zip(img_dates, img_files))
+        files_date_zip = [x for x in files_date_zip if x[0] <= high_datebound]
+    if len(files_date_zip) == 0:  # no image in the date range
+        return None, None
     img_files_sorted = [x[1] for x in files_date_zip]
     img_dates_sorted = np.asarray([x[0] for x in files_date_zip])
     img_tstack = np.dstack(
-- 
2.43.0


From 0b10de72067546769a65d11883cedd63065365ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 33/56] fix: OBCOLD reconstructed from images outside the
 requested date range

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index b54fb45..b4bfd92 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -732,7 +732,7 @@ def main(
             block_y = int((block_id - 1) / dataset_info.n_block_x) + 1
             block_x = int((block_id - 1) % dataset_info.n_block_x) + 1
             img_tstack, img_dates_sorted = get_stack_date(
-                dataset_info, block_x, block_y, stack_path
+                dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
-- 
2.43.0


From acc10e29bc2148d7635505a105a831106a3e4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 34/56] fix: OBCOLD reconstruction ignored the Collection 2
 option

---
 src/python/pycold/imagetool/tile_processing.py | 1 +
 src/python/pycold/ob_analyst.py                | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index b4bfd92..d7d528f 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -739,6 +739,7 @@ def main(
                 img_stack=img_tstack,
                 img_dates_sorted=img_dates_sorted,
                 conse=conse,
+                b_c2=b_c2,
             )
             ob_analyst.save_obcoldrecords(block_id=block_id, result_collect=result_collect)
 
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..1789d45 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1080,6 +1080,7 @@ class ObjectAnalystHPC:
         img_dates_sorted: Optional[np.ndarray] = None,
         logger: Optional[Logger] = None,
         conse: int = 6,
+        b_c2: bool = False,
     ) -> Union[List[Any], None]:
         """
         the third step of OBCOLD, it reconstructs the new temporal segment based on the new spatially adjusted break
@@ -1088,6 +1089,8 @@ class ObjectAnalystHPC:
             img_stack: time series block-based dataset
             img_dates_sorted: the new break dates from obiaresult_{}.npy
             logger: logger handle
+            conse: consecutive observation number
+            b_c2: True -> the thermal band is not considered for observation selection
         Returns:
             change records
         """
@@ -1130,6 +1133,7 @@ class ObjectAnalystHPC:
                     img_stack[pos, 7, :].astype(np.int64),
                     obia_breaks[:, pos].astype(np.int64),
                     conse=conse,
+                    b_c2=b_c2,
                     pos=self.dataset_info.n_cols * (original_row - 1) + original_col,
                 )
             except RuntimeError:
-- 
2.43.0


From dfb7cdcfe53f14e82321e7cdfc6f6336a0301cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 35/56] fix: reconstruct_reccg read block files with the shape
 of the whole tile

---
 src/python/pycold/ob_analyst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 1789d45..6e55d01 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1109,7 +1109,9 @@ class ObjectAnalystHPC:
         if img_stack is None and img_dates_sorted is None:
             block_folder = join(self.stack_path, "block_x{}_y{}".format(block_x, block_y))
             img_stack, img_dates_sorted = read_blockdata(
-                block_folder, self.dataset_info.n_cols * self.dataset_info.n_rows, self.band_num + 1
+                block_folder,
+                self.dataset_info.block_width * self.dataset_info.block_height,
+                self.band_num + 1,
             )
         obia_breaks = self.get_allobiaresult_asarray(block_x, block_y)
         result_collect = []
-- 
2.43.0


From b3acb45f31b9a09acfbf5be29d0108ddac735b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 36/56] fix: read_blockdata left out the Sentinel-2 images of a
 stack

---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 45a295f..6870ca9 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -318,7 +318,7 @@ def assemble_array(array_list, n_block_x):
 
 
 def read_blockdata(block_folder, total_pixels, total_bands):
-    img_files = [f for f in os.listdir(block_folder) if f.startswith("L")]
+    img_files = [f for f in os.listdir(block_folder) if f.startswith("L") or f.startswith("S")]
 
     # sort image files by dates
     img_dates = [
-- 
2.43.0


From 6f86c433ad908fb40c61c09f414589b056bb379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 37/56] fix: an empty block ended the OBCOLD reconstruction of
 its worker

---
 src/python/pycold/imagetool/tile_processing.py | 2 ++
 src/python/pycold/ob_analyst.py                | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index d7d528f..038b158 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -734,6 +734,8 @@ def main(
             img_tstack, img_dates_sorted = get_stack_date(
                 dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
+            if img_tstack is None:  # empty block
+                continue
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
                 img_stack=img_tstack,
diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 6e55d01..ba84f6b 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1151,6 +1151,8 @@ class ObjectAnalystHPC:
         return result_collect
 
     def save_obcoldrecords(self, block_id, result_collect):
+        if result_collect is None or len(result_collect) == 0:  # no records in the block
+            return
         block_x = get_block_x(block_id, self.dataset_info.n_block_x)
         block_y = get_block_y(block_id, self.dataset_info.n_block_x)
         np.save(
-- 
2.43.0


From c709e4f98b75ac09de5141e6c201c95fa10f7b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 38/56] fix: export_change_map never saved the block maps of
 SCCDOFFLINE

---
 .../pycold/imagetool/export_change_map.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index f90635a..c4b5388 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -557,15 +557,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From 82ce6ab914de615d7502b7096f96041a92b4c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 39/56] fix: export_change_map saved no coefficient map for a
 block without records

---
 src/python/pycold/imagetool/export_change_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index c4b5388..1d4fc9a 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -431,6 +431,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
-- 
2.43.0


From 10d0755b2a4bbca5075ab74ed51d9d2b4106707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 40/56] fix: break maps lost the last break of a block and
 classified breaks by the next pixel

---
 .../pycold/imagetool/export_change_map.py     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 1d4fc9a..572f092 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -191,6 +191,14 @@ def index_sccdpack(sccd_pack_single):
     return sccd_pack_single
 
 
+def has_next_segment(cold_plot, i_curve):
+    """whether the record after i_curve belongs to the same pixel"""
+    return (
+        i_curve + 1 < len(cold_plot)
+        and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+    )
+
+
 def getcategory_cold(cold_plot, i_curve):
     t_c = -200
     if (
@@ -199,7 +207,8 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_segment(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -218,7 +227,8 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            has_next_segment(cold_plot, i_curve)
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -458,7 +468,7 @@ def main(
         if method == "SCCDOFFLINE":
             for count, plot in enumerate(cold_block):
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:  # last segment
                         continue
 
                     i_col = (
@@ -499,11 +509,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From 94236ab0490f366675e179505940d599aae58e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 41/56] fix: waiting stages read maps and the forest model
 while they were being written

---
 src/python/pycold/pyclassifier.py | 16 +++++++++++++---
 src/python/pycold/utils.py        | 18 +++++++++++++++++-
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..dfc0048 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -12,7 +12,14 @@ from sklearn.ensemble import RandomForestClassifier
 from osgeo import gdal_array
 from typing import Optional
 from pycold.app import defaults
-from pycold.utils import get_block_y, get_block_x, get_col_index, get_row_index, assemble_array
+from pycold.utils import (
+    get_block_y,
+    get_block_x,
+    get_col_index,
+    get_row_index,
+    assemble_array,
+    save_complete,
+)
 from pycold.common import DatasetInfo
 
 
@@ -439,7 +446,10 @@ class PyClassifierHPC(PyClassifier):
 
     @staticmethod
     def _save_rf_model(rf_model, rf_path):
-        joblib.dump(rf_model, rf_path, compress=3)
+        # the waiting stages take the existence of rf_path as its completion
+        tmp_path = os.fspath(rf_path) + ".tmp"
+        joblib.dump(rf_model, tmp_path, compress=3)
+        os.replace(tmp_path, rf_path)
 
     def _is_finished_step2_train_rfmodel(self):
         return exists(self.rf_path)
@@ -465,7 +475,7 @@ class PyClassifierHPC(PyClassifier):
         return True
 
     def _save_covermaps(self, full_yearlyclass_array, year):
-        np.save(
+        save_complete(
             join(self.output_path, "yearlyclassification_{}.npy".format(year)),
             full_yearlyclass_array,
         )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 6870ca9..77526fc 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -70,6 +70,22 @@ def get_row_index(pos, n_cols, current_block_y, block_height):
     return int((pos - 1) / n_cols) - (current_block_y - 1) * block_height
 
 
+def save_complete(outfile, array):
+    """
+    save an array so that outfile exists only once it is complete; for files whose existence tells
+    other processes and later runs that the step is finished
+
+    Parameters
+    ----------
+    outfile: string, path of a .npy file
+    array: array to be saved
+    """
+    tmp_file = outfile + ".tmp"
+    with open(tmp_file, "wb") as f:
+        np.save(f, array)
+    os.replace(tmp_file, outfile)
+
+
 def assemble_cmmaps(
     dataset_info: DatasetInfo,
     result_path: str,
@@ -165,7 +181,7 @@ def assemble_cmmaps(
                 get_doy(ordinal_date),
             ),
         )
-        np.save(outfile, cm_map)
+        save_complete(outfile, cm_map)
 
     if clean is True:
         tmp_filenames = [file for file in os.listdir(result_path) if file.startswith(prefix + "_x")]
-- 
2.43.0


From c8f4f1a60a43c9940c6b27b04d1c2b5dee398154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 42/56] fix: PyClassifierHPC ignored the given output path

---
 src/python/pycold/pyclassifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index dfc0048..c84c840 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -371,7 +371,7 @@ class PyClassifierHPC(PyClassifier):
         if output_path is None:
             self.output_path = join(record_path, "feature_maps")  # default path
         else:
-            self.output_path = self.tmp_path
+            self.output_path = output_path
 
         self.n_features = band_num * len(feature_outputs)
 
-- 
2.43.0


From f73fd4e791aef5aeab7b13c23aae1db486d4465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 43/56] fix: obia_execute ignored the given floodfill ratio

---
 src/python/pycold/ob_analyst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index ba84f6b..ad6e55f 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -930,7 +930,8 @@ class ObjectAnalystHPC:
                             cmname_fromdate(date - cm_output_interval) + ".npy",
                         )
                     ),
-                    date_array_last
+                    date_array_last,
+                    floodfill_ratio=floodfill_ratio,
                 )
             elif method == "slic":
                 [object_map_s1, cm_date_array_updated, object_map_s2, s1_info] = segmentation_slic(
-- 
2.43.0


From 463528ba05fa3521763cff84635907f83dfded56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 44/56] fix: sccd_identify read the wrong tail slots of states
 detected with conse other than 6

---
 src/python/pycold/colds.py | 3 ++-
 src/python/pycold/utils.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 305844e..cd27191 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -543,7 +543,8 @@ def sccd_identify(
             return (
                 sccd_pack,
                 sccd_pack.nrt_model[0]["obs_date_since1982"][
-                    defaults["SCCD"]["DEFAULT_CONSE"] - sccd_pack.nrt_model[0]["conse_last"]
+                    np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"])
+                    - sccd_pack.nrt_model[0]["conse_last"]
                 ]
                 + defaults["COMMON"]["JULIAN_LANDSAT4_LAUNCH"],
             )
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 77526fc..e6dc1df 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -559,7 +559,9 @@ def calculate_sccd_cm(sccd_pack):
     -------
 
     """
-    start_index = defaults["SCCD"]["NRT_BAND"] - sccd_pack.nrt_model[0]["conse_last"]
+    # the model tail holds conse observations, the unused slots are zeros
+    n_tail = np.count_nonzero(sccd_pack.nrt_model[0]["obs_date_since1982"])
+    start_index = n_tail - sccd_pack.nrt_model[0]["conse_last"]
     pred_ref = np.asarray(
         [
             [
@@ -574,7 +576,7 @@ def calculate_sccd_cm(sccd_pack):
         ]
     )
     cm = (
-        sccd_pack.nrt_model[0]["obs"][:, start_index : defaults["SCCD"]["DEFAULT_CONSE"]] - pred_ref
+        sccd_pack.nrt_model[0]["obs"][:, start_index:n_tail] - pred_ref
     )
     return np.median(cm, axis=1)
 
-- 
2.43.0


From 77caf808a8e9ae827c895fcf9a1d139c4e6f1284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 45/56] fix: workers of prepare_ard numbered the images by
 their own directory order

---
 src/python/pycold/imagetool/prepare_ard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 1217640..440fe29 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1843,6 +1843,8 @@ def main(
     elif collection == "HLS14":
         folder_list = [y for x in os.walk(source_dir) for y in glob(os.path.join(x[0], "*.hdf"))]
 
+    folder_list.sort()  # every worker has to number the images alike
+
     tmp_path = join(out_dir, "tmp{}".format(rank))
 
     tz = timezone("US/Eastern")
-- 
2.43.0


From 21f57d1241c8f3590c866e3a4e6fa9fdca85d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:58 +0000
Subject: [PATCH 46/56] fix: change maps could not be exported,
 Timestamp.toordinal takes no date

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 572f092..9240f8c 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -90,7 +90,7 @@ def extract_features(
                 if (cold_curve["t_break"] > 0 and cold_curve["change_prob"] == 100)
                 else -9999
             )
-            # ordinal_day_break_july1st = pd.Timestamp.toordinal(datetime.date(break_year, 7, 1))
+            # ordinal_day_break_july1st = datetime.date(break_year, 7, 1).toordinal()
             # else:
             # ordinal_day_break_july1st = 0
 
@@ -493,7 +493,7 @@ def main(
                     results_block[break_year - year_lowbound][i_row][i_col] = (
                         current_dist_type * 1000
                         + curve["t_break"]
-                        - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                        - (datetime.date(break_year, 1, 1).toordinal())
                         + 1
                     )
         else:
@@ -502,7 +502,7 @@ def main(
             current_dist_type = 0
             year_list_to_predict = list(range(year_lowbound, year_uppbound + 1))
             ordinal_day_list = [
-                pd.Timestamp.toordinal(datetime.date(year, 7, 1)) for year in year_list_to_predict
+                datetime.date(year, 7, 1).toordinal() for year in year_list_to_predict
             ]
             for count, curve in enumerate(cold_block):
                 if curve["pos"] != current_processing_pos:
@@ -539,7 +539,7 @@ def main(
                 results_block[break_year - year_lowbound][i_row][i_col] = (
                     current_dist_type * 1000
                     + curve["t_break"]
-                    - (pd.Timestamp.toordinal(datetime.date(break_year, 1, 1)))
+                    - (datetime.date(break_year, 1, 1).toordinal())
                     + 1
                 )
                 # e.g., 1315 means that disturbance happens at doy of 315
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index e6dc1df..41ec2a0 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -366,7 +366,7 @@ def read_data(path):
 
 
 def date2matordinal(year, month, day):
-    return pd.Timestamp.toordinal(dt.date(year, month, day))
+    return dt.date(year, month, day).toordinal()
 
 
 def matordinal2date(ordinal):
-- 
2.43.0


From 6f583f67e1669e63247dcb1d7b86559624c196f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 47/56] fix: a dataset within one year got no land cover map
 and stopped in the object analysis

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 038b158..d7ccd0e 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -602,7 +602,7 @@ def main(
             pyclassifier = PyClassifierHPC(
                 dataset_info,
                 record_path=result_path,
-                year_list_to_predict=list(range(year_lowbound, year_uppbound)),
+                year_list_to_predict=list(range(year_lowbound, max(year_uppbound, year_lowbound + 1))),
                 seedmap_path=seedmap_path,
             )
             ob_analyst = ObjectAnalystHPC(
-- 
2.43.0


From 01e39ef01a74a73e3e34e205b6069d1942ffe863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 48/56] fix: a failure inside S-CCD monitoring was taken for a
 detected change

---
 src/cxx/defines.h | 2 +-
 src/cxx/s_ccd.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/defines.h b/src/cxx/defines.h
index 4c5f614..6e1eddd 100644
--- a/src/cxx/defines.h
+++ b/src/cxx/defines.h
@@ -86,7 +86,7 @@
 
 /* step3_KF_ChangeDetection RETURN_VALUE*/
 #define REGULAREND 0
-#define CHANGEDETECTED 1
+#define CHANGEDETECTED 3 /* not FAILURE (1): step2_KF_ChangeDetection returns both */
 #define FALSECHANGE 2
 
 /* for ini_mode in sccd */
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index a76b62e..60f00c5 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2888,7 +2888,7 @@ int sccd_standard(
                                               cov_p, fit_cft, rec_cg, sum_square_vt, &num_obs_processed,
                                               t_start, b_pinpoint, rec_cg_pinpoint, num_fc_pinpoint, gate_tcg,
                                               &norm_cm_scale100, &cm_angle_scale100, CM_outputs, T_MAX_CG_SCCD);
-            if (status == ERROR)
+            if ((status == ERROR) || (status == FAILURE))
             {
                 RETURN_ERROR("Calling step2_KF_ChangeDetection", FUNC_NAME, FAILURE);
             }
-- 
2.43.0


From 3e785e6b547a6244941f5675bf366f3374374188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 49/56] fix: a failed model prediction was ignored and stale
 predictions used

---
 src/cxx/cold.c  | 30 +++++++++++++++++++++++++-----
 src/cxx/misc.c  | 12 ++++++++++--
 src/cxx/s_ccd.c | 12 ++++++++++--
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 80ba592..da5d393 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -3464,8 +3464,12 @@ int stand_procedure
                                 // SY 09192018 moving fitting into (i_b == lasso_blist[b])to save time //
                                 // SY 02/13/2019 delete these speed-up modification as non-lasso bands
                                 // are important for change agent classification
-                                auto_ts_predict_float(clrx, fit_cft, MIN_NUM_C, i_b, i_ini-i_conse+1,
+                                status = auto_ts_predict_float(clrx, fit_cft, MIN_NUM_C, i_b, i_ini-i_conse+1,
                                                 i_ini-i_conse+1, &ts_pred_temp);
+                                if (status != SUCCESS)
+                                {
+                                    RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, FAILURE);
+                                }
                                 v_dif_mag[i_b][i_conse-1] = (float)clry[i_b][i_ini-i_conse+1] -
                                                    ts_pred_temp;// SY 09192018
                                 // printf("auto_ts_predict finished \n");
@@ -3914,8 +3918,12 @@ int stand_procedure
                             /*                                    */
                             /**************************************/
                             // printf("auto_ts_predict started finished \n", i);
-                            auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i+i_conse-1, i+i_conse-1,
+                            status = auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i+i_conse-1, i+i_conse-1,
                                             &ts_pred_temp); //SY 09192018
+                            if (status != SUCCESS)
+                            {
+                                RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, FAILURE);
+                            }
                             // printf("auto_ts_predict finished \n", i);
                             v_dif_mag[i_b][i_conse-1] = (float)clry[i_b][i+i_conse-1] - ts_pred_temp;//SY 09192018
 
@@ -4171,8 +4179,12 @@ int stand_procedure
     //                        if (i == 45){
     //                            i = 45;
     //                       }
-                        auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i+adj_conse-1,
+                        status = auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i+adj_conse-1,
                              i+adj_conse-1, &ts_pred_temp);
+                        if (status != SUCCESS)
+                        {
+                            RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, FAILURE);
+                        }
                         v_dif_mag[i_b][adj_conse-1] = (float)clry[i_b][i+adj_conse-1] - ts_pred_temp;
 
                         /******************************************/
@@ -5656,8 +5668,12 @@ int obcold_reconstruction_procedure
                         {
                             if (i_b == lasso_blist[b])
                             {
-                                auto_ts_predict_float(clrx_tmp, fit_cft, update_num_c, i_b, k, k,
+                                status = auto_ts_predict_float(clrx_tmp, fit_cft, update_num_c, i_b, k, k,
                                                 &ts_pred_temp); //SY 09192018
+                                if (status != SUCCESS)
+                                {
+                                    RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, FAILURE);
+                                }
                                 mini_rmse = max(min_rmse[i_b], rmse[i_b]);
                                 v_dif[b] = (clry_tmp[i_b][k] - ts_pred_temp) / mini_rmse;
                                 v_dif_norm += v_dif[b]* v_dif[b];
@@ -5764,8 +5780,12 @@ int obcold_reconstruction_procedure
                 for(i_b = 0; i_b < TOTAL_IMAGE_BANDS; i_b++)
                 {
                     for (k = 0; k < adj_conse; k++){
-                        auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i_break+k,
+                        status = auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i_break+k,
                              i_break+k, &ts_pred_temp);
+                        if (status != SUCCESS)
+                        {
+                            RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, FAILURE);
+                        }
                         v_dif_mag[i_b][k] = (float)clry[i_b][i_break+k] - ts_pred_temp;
                     }
                     quick_sort_float(v_dif_mag[i_b], 0, adj_conse-1);
diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 2b7c948..80fb1f4 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -2187,7 +2187,11 @@ int auto_ts_fit_sccd
     /* predict lasso model results */
     if (df == 2 || df == 4 || df == 6 )
     {
-        auto_ts_predict_float(clrx, coefs, df, lasso_band_index, start, end, yhat);
+        status = auto_ts_predict_float(clrx, coefs, df, lasso_band_index, start, end, yhat);
+        if (status != SUCCESS)
+        {
+            RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, ERROR);
+        }
         for (i = 0; i < nums; i++)
         {
             v_dif[lasso_band_index][i] = (float)clry[band_index][i+start] - yhat[i];
@@ -2481,7 +2485,11 @@ int auto_ts_fit_float
     /* predict lasso model results */
     if (df == 2 || df == 4 || df == 5 || df == 6 || df == 8)
     {
-        auto_ts_predict_float(clrx, coefs, df, lasso_band_index, start, end, yhat);
+        status = auto_ts_predict_float(clrx, coefs, df, lasso_band_index, start, end, yhat);
+        if (status != SUCCESS)
+        {
+            RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, ERROR);
+        }
         for (i = 0; i < nums; i++)
         {
             v_dif[lasso_band_index][i] = (float)clry[band_index][i+start] - yhat[i];
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 60f00c5..560de5c 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1213,8 +1213,12 @@ int step1_cold_initialize(
                     // SY 02/13/2019 delete these speed-up modification as non-lasso bands
                     // are important for change agent classification
                     // printf("i_b = %d\n", i_b);
-                    auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i_ini - i_conse + 1,
+                    status = auto_ts_predict_float(clrx, fit_cft, update_num_c, i_b, i_ini - i_conse + 1,
                                           i_ini - i_conse + 1, &ts_pred_temp);
+                    if (status != SUCCESS)
+                    {
+                        RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, FAILURE);
+                    }
                     v_dif_mag[i_b][i_conse - 1] = (float)clry[i_b][i_ini - i_conse + 1] -
                                                   ts_pred_temp; // SY 09192018
 
@@ -1364,8 +1368,12 @@ int step1_cold_initialize(
             v_dif_norm = 0.0;
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
-                auto_ts_predict_float(clrx, fit_cft, MIN_NUM_C, i_b, *i_start - i_conse,
+                status = auto_ts_predict_float(clrx, fit_cft, MIN_NUM_C, i_b, *i_start - i_conse,
                                       *i_start - i_conse, &ts_pred_temp);
+                if (status != SUCCESS)
+                {
+                    RETURN_ERROR("Calling auto_ts_predict_float", FUNC_NAME, FAILURE);
+                }
                 v_dif_magg[i_b][i_conse - 1] = (float)clry[i_b][*i_start - i_conse] -
                                                ts_pred_temp; // SY 09192018
             }
-- 
2.43.0


From 1ceaa400e77e9ee326561bca3a63e1a3cb97de7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 50/56] fix: failed allocations in the detectors were used
 instead of reported

---
 src/cxx/cold.c  | 40 ++++++++++++++++++++++++++++++++++++++++
 src/cxx/misc.c  | 12 ++++++++++++
 src/cxx/s_ccd.c | 20 ++++++++++++++++++++
 3 files changed, 72 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index da5d393..e261a61 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -125,6 +125,10 @@ int cold
     }
 
     id_range = (int*)calloc(valid_num_scenes, sizeof(int));
+    if (id_range == NULL)
+    {
+        RETURN_ERROR("Allocating id_range memory", FUNC_NAME, ERROR);
+    }
 
     // check if valid_date_array is sorted
     for (i = 0; i < valid_num_scenes - 1; i++)
@@ -2695,8 +2699,16 @@ int stand_procedure
 
     n_clr = 0;
     clrx = (int* )malloc(valid_num_scenes * sizeof(int));
+    if (clrx == NULL)
+    {
+        RETURN_ERROR("Allocating clrx memory", FUNC_NAME, FAILURE);
+    }
     clry = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
+    if (clry == NULL)
+    {
+        RETURN_ERROR("Allocating clry memory", FUNC_NAME, FAILURE);
+    }
 
 //        for (i = 0; i < valid_num_scenes; i++)
 //        {
@@ -4404,6 +4416,10 @@ int stand_procedure
         for (i_conse = adj_conse - 1; i_conse >= 0; i_conse--)
         {
             v_diff_tmp =(float **) allocate_2d_array(NUM_LASSO_BANDS, adj_conse - i_conse, sizeof (float));
+            if (v_diff_tmp == NULL)
+            {
+                RETURN_ERROR("Allocating v_diff_tmp memory", FUNC_NAME, FAILURE);
+            }
             for (k = 0; k < NUM_LASSO_BANDS; k++)
                 for(j = 0; j < adj_conse - i_conse; j++)
                   v_diff_tmp[k][j] = v_diff[k][i_conse+j];
@@ -5399,6 +5415,10 @@ int obcold_reconstruction_procedure
         return (SUCCESS);
     }
     id_range = (int*)calloc(valid_num_scenes, sizeof(int));
+    if (id_range == NULL)
+    {
+        RETURN_ERROR("Allocating id_range memory", FUNC_NAME, ERROR);
+    }
 
     for (k = 0; k < TOTAL_IMAGE_BANDS; k++)
     {
@@ -5440,13 +5460,29 @@ int obcold_reconstruction_procedure
 
 
     clrx = (int* )malloc(valid_num_scenes * sizeof(int));
+    if (clrx == NULL)
+    {
+        RETURN_ERROR("Allocating clrx memory", FUNC_NAME, FAILURE);
+    }
     clry = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
+    if (clry == NULL)
+    {
+        RETURN_ERROR("Allocating clry memory", FUNC_NAME, FAILURE);
+    }
 
 
     clrx_tmp = (int* )malloc(valid_num_scenes * sizeof(int));
+    if (clrx_tmp == NULL)
+    {
+        RETURN_ERROR("Allocating clrx_tmp memory", FUNC_NAME, FAILURE);
+    }
     clry_tmp = (float **) allocate_2d_array (TOTAL_IMAGE_BANDS, valid_num_scenes,
                                          sizeof (float));
+    if (clry_tmp == NULL)
+    {
+        RETURN_ERROR("Allocating clry_tmp memory", FUNC_NAME, FAILURE);
+    }
 
 
 
@@ -5514,6 +5550,10 @@ int obcold_reconstruction_procedure
     end = n_clr;
 
     break_list = (int* )malloc(break_date_len * sizeof(int));
+    if (break_list == NULL)
+    {
+        RETURN_ERROR("Allocating break_list memory", FUNC_NAME, FAILURE);
+    }
 
     sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
 
diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 80fb1f4..eed6828 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -176,7 +176,15 @@ int adjust_median_variogram
     else if(option == 2)
     {
         unique_diff = (int*)malloc((dim2_len-1) * sizeof(int));
+        if (unique_diff == NULL)
+        {
+            RETURN_ERROR("Allocating unique_diff memory", FUNC_NAME, ERROR);
+        }
         unique_diff_freq = (int*)malloc((dim2_len-1) * sizeof(int));
+        if (unique_diff_freq == NULL)
+        {
+            RETURN_ERROR("Allocating unique_diff_freq memory", FUNC_NAME, ERROR);
+        }
 
 
         step = 1;
@@ -2725,6 +2733,10 @@ int c_glmnet
         {
             int* oja;
             oja = malloc(nin[0] * sizeof(int));
+            if (oja == NULL)
+            {
+                return (ERROR);
+            }
             for(int k = 0; k < nin[0]; k++)
                 oja[k] = k;
 
diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 560de5c..06002d2 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -107,6 +107,10 @@ int sccd(
         len_clrx = valid_num_scenes;
 
     id_range = (int *)calloc(len_clrx, sizeof(int));
+    if (id_range == NULL)
+    {
+        RETURN_ERROR("Allocating id_range memory", FUNC_NAME, FAILURE);
+    }
     clrx = (int *)malloc(len_clrx * sizeof(int));
     if (clrx == NULL)
     {
@@ -1863,8 +1867,16 @@ int step2_KF_ChangeDetection(
                 for (conse_last = 1; conse_last <= conse; conse_last++)
                 {
                     v_diff_tmp = (float **)allocate_2d_array(NUM_LASSO_BANDS, conse_last, sizeof(float)); // used to calculate angle
+                    if (v_diff_tmp == NULL)
+                    {
+                        RETURN_ERROR("Allocating v_diff_tmp memory", FUNC_NAME, ERROR);
+                    }
                     v_dif_mag_tmp = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD, conse_last,
                                                                 sizeof(float));
+                    if (v_dif_mag_tmp == NULL)
+                    {
+                        RETURN_ERROR("Allocating v_dif_mag_tmp memory", FUNC_NAME, ERROR);
+                    }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
                         for (b = 0; b < NUM_LASSO_BANDS; b++)
@@ -2426,8 +2438,16 @@ int step3_processing_end(
             for (conse_last = 1; conse_last <= valid_conse_last; conse_last++) // equal to *n_clr - 1 to *n_clr - 1 - conse + 1
             {
                 v_diff_tmp = (float **)allocate_2d_array(NUM_LASSO_BANDS, conse_last, sizeof(float));
+                if (v_diff_tmp == NULL)
+                {
+                    RETURN_ERROR("Allocating v_diff_tmp memory", FUNC_NAME, FAILURE);
+                }
                 v_dif_mag_tmp = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD, conse_last,
                                                             sizeof(float));
+                if (v_dif_mag_tmp == NULL)
+                {
+                    RETURN_ERROR("Allocating v_dif_mag_tmp memory", FUNC_NAME, FAILURE);
+                }
                 for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                 {
                     for (b = 0; b < NUM_LASSO_BANDS; b++)
-- 
2.43.0


From a5feb5b6e47a9c4b31f1b3538e00110dfa28d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 51/56] fix: the design matrix of an eight-coefficient S-CCD
 fit was not released

---
 src/cxx/misc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index eed6828..15b5e74 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -2211,7 +2211,7 @@ int auto_ts_fit_sccd
 
     /* Free allocated memory */
     free(yhat);
-    if (df == 2 || df == 4 || df == 5 || df == 6)
+    if (df == 2 || df == 4 || df == 5 || df == 6 || df == 8)
     {
         if (free_2d_array ((void **) x) != SUCCESS)
         {
-- 
2.43.0


From 32e5eb4fe98f0b0e214fc4e874ef244ddf83f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 52/56] fix: a permanent snow pixel without thermal
 observations crashed the process

---
 src/cxx/cold.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index e261a61..a6572d7 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5028,12 +5028,20 @@ int inefficientobs_procedure
                     }
                  }
 
-                status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
-                         fit_cft, &rmse[k], temp_v_dif);
+                if (i_span < MIN_NUM_C * N_TIMES)
+                {
+                    for(i = 0; i < MAX_NUM_C; i++) // no thermal observations
+                        fit_cft[k][i] = 0;
+                }
+                else
+                {
+                    status = auto_ts_fit_float(clrx_span, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                             fit_cft, &rmse[k], temp_v_dif);
 
-                if (status != SUCCESS)
-                    RETURN_ERROR ("Calling auto_ts_fit_float\n",
-                           FUNC_NAME, EXIT_FAILURE);
+                    if (status != SUCCESS)
+                        RETURN_ERROR ("Calling auto_ts_fit_float\n",
+                               FUNC_NAME, EXIT_FAILURE);
+                }
 
               }
         }
-- 
2.43.0


From 3b91eedce8ebd52d16a53454a77690aa0898ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 53/56] fix: the first segment of an S-CCD series was compared
 with observations before the array for conse of 7 or 8

---
 src/cxx/s_ccd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 06002d2..2098a36 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1357,7 +1357,8 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        /* the first segment may have fewer observations than conse */
+        ini_conse = min(conse, *i_start - *i_dense);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From 26ffdd15bb67acd08c1b6af5964fcecba6394d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 54/56] fix: the angle between parallel or zero change vectors
 was undefined, so the change went unnoticed

---
 src/cxx/misc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 15b5e74..d06b719 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -3050,7 +3050,13 @@ float MeanAngl_float
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            /* rounding can take the cosine of parallel vectors beyond 1; a zero vector has no direction */
+            tmp = (norm1 > 0 && norm2 > 0) ? product / (sqrtf(norm1) * sqrtf(norm2)) : 0;
+            if (tmp > 1)
+                tmp = 1;
+            if (tmp < -1)
+                tmp = -1;
+            tmp = acosf(tmp);
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
-- 
2.43.0


From ee16060e253730383e3984467f44de45abda8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 55/56] fix: the stored sum of squared residuals of a noisy
 S-CCD pixel wrapped around

---
 src/cxx/s_ccd.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 2098a36..5f8aef8 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -16,6 +16,14 @@
 
 int lasso_blist_sccd[NUM_LASSO_BANDS] = {1, 2, 3, 4, 5};
 
+/* the sum of squared residuals is stored as an unsigned int: saturate instead of wrapping */
+static unsigned int add_square(unsigned int sum, float vt)
+{
+    double total = (double)sum + (double)(vt * vt);
+
+    return total < 4294967295.0 ? (unsigned int)total : 4294967295u;
+}
+
 /******************************************************************************
 MODULE:  sccd_offline
 
@@ -489,7 +497,7 @@ int step1_ssm_initialize(
     {
         KF_ts_filter_regular(instance, clrx_extend, clry_extend, cov_p, fit_cft, i, i_b, &vt, FALSE);
         if (i > stable_nobs - 1)
-            *sum_square_vt = *sum_square_vt + (unsigned int)(vt * vt);
+            *sum_square_vt = add_square(*sum_square_vt, vt);
     }
 
     //    for(i = 0; i < stable_nobs + EXTEND_OBS; i++){
@@ -2099,7 +2107,7 @@ int step2_KF_ChangeDetection(
         {
             KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b],
                                  fit_cft, cur_i, i_b, &vt, steady);
-            sum_square_vt[i_b] = sum_square_vt[i_b] + vt * vt;
+            sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
         }
         *num_obs_processed = *num_obs_processed + 1;
 
@@ -3384,7 +3392,7 @@ int sccd_snow(
             for (i = 0; i < n_clr - DEFAULT_CONSE_SCCD; i++)
             {
                 KF_ts_filter_regular(&instance[i_b], clrx, clry[i_b], cov_p[i_b], fit_cft, i, i_b, &vt, FALSE);
-                sum_square_vt[i_b] = sum_square_vt[i_b] + (unsigned int)(vt * vt);
+                sum_square_vt[i_b] = add_square(sum_square_vt[i_b], vt);
             }
         }
     }
-- 
2.43.0


From 0146ac4be4f71ec224b701bf26cbd099c75480b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:17 +0000
Subject: [PATCH 56/56] fix: unlabelled pixels of the training map were counted
 as the last land cover class

---
 src/python/pycold/pyclassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index c84c840..f23f9b9 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -120,7 +120,8 @@ def generate_sample_num(label, sample_parameters):
 
     """
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0

