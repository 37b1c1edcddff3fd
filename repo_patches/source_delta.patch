From 2781667a324dd3a8d3eaa36f20d2560314d5b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 01/14] fix: grid_dims_2d searches factors of p down to 1, so
 the lower candidate is always set

---
 src/block_sizing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..9b2c2a0 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -621,7 +621,7 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 			}
 		}
 
-		for(int i = (pn - 2); i > 0; i--) {
+		for(int i = (pn - 2); i >= 0; i--) {
 			if(grid_dims[ncores - p][i]) {
 				low = i;
 				break;
-- 
2.43.0


From 728239866080bdc6e4d1bf5c1a35f571e0a1e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 02/14] fix: grid_dims_2d no longer indexes the factor table
 outside its rows

---
 src/block_sizing.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 9b2c2a0..4bd0890 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -608,21 +608,21 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 	pn = (pn > p) ? p : pn;
 
 
-	// index into static table of factors to quickly find factor of p that is closest to optimal pn
-	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	// find factor of p that is closest to optimal pn. p is tested directly: the table created at
+	// library creation has no row for p > ncores (of the build machine) or p < 0.1*ncores
+	if((p % pn) == 0) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if((p % (i+1)) == 0) {
 				high = i;
 				break;
 			}
 		}
 
 		for(int i = (pn - 2); i >= 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+			if((p % (i+1)) == 0) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From 821f4042dfb59fd549deac5be6874e31531a162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 03/14] fix: cake_sgemm_ukernel runs the kernel selected by the
 context, not always 6x16

---
 include/kernel_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index 6870f6c..edc4137 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -32,7 +32,7 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 		(inc_t) n_r, (inc_t) 1, &def_data, (cntx_t*) cake_cntx->blis_cntx);
 
 #elif USE_CAKE_HASWELL
-	cake_sgemm_haswell_6x16(A_p, B_p, C_p, m_r, n_r, k_c_t);
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #elif USE_CAKE_ARMV8
 	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
-- 
2.43.0


From fa25aa303efa3863aefbb940771ed24b6f0fb99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 04/14] fix: M/N-first B packing pads the last N block instead
 of reading past the columns of B

---
 src/pack_m_first.cpp | 4 +---
 src/pack_n_first.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..a292aff 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -122,16 +122,14 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            bool pad = ((n == Nb - 1) && n_pad);
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..727b10e 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -122,16 +122,14 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            bool pad = ((n == Nb - 1) && n_pad);
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-- 
2.43.0


From b79a398c9625cd63fd89a48c8d069dd2c39f067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 05/14] fix: N-first C packing places edge blocks where the
 schedule and unpacking expect them

---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 727b10e..9122844 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -200,7 +200,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From 4c337cb2640fbbe7b06865ea0d96b50f7842219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 06/14] fix: online and 2-D K-first no longer read past the
 last row of A and last column of B

---
 src/cake_sgemm_k_first.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..cff6ae0 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -377,6 +377,12 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
+			         	if(n1 + n2 + n_r > N) { // tile hangs over the last column of B
+			         		pack_ob_B_single_buf(&B[B_offset + n2], &B_p[n2*k_c_t], 
+			         			K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			         		continue;
+			         	}
+
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
 			      	}
@@ -388,6 +394,12 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
+						if(m1 + m3 + m_r > M) { // tile hangs over the last row of A
+							pack_ob_A_single_buf(&A[A_offset + m3*K], &A_p[m3*k_c_t], 
+								M, K, m1, m3, m_r, k_c_t, m_r, 1);
+							continue;
+						}
+
 						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
 							&A_p[m3*k_c_t], m_r);
 					}     
@@ -729,6 +741,12 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
+			         	if(n1 + n2 + n_r > N) { // tile hangs over the last column of B
+			         		pack_ob_B_single_buf(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], 
+			         			K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			         		continue;
+			         	}
+
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
 			      	}
@@ -758,6 +776,12 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
+							if(m1 + core*m_c_x + m3 + m_r > M) { // tile hangs over the last row of A
+								pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+									M, K, m1, core*m_c_x + m3, m_r, k_c_t, m_r, 1);
+								continue;
+							}
+
 							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
 								&A_p[core][m3*k_c_t], m_r);
 						}     
-- 
2.43.0


From 79dbcc86a271565dac68278b221d6444a351f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 07/14] fix: online K-first sets the shared A offset before its
 parallel loop, not inside it

---
 src/cake_sgemm_k_first.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index cff6ae0..801b517 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -752,6 +752,8 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	}
 				}
 
+				A_offset = m*p*m_c*K + k*k_c;
+
 				// pragma omp here (i_c loop)
 				#pragma omp parallel for private(core)
 				for(core = 0; core < p_used; core++) {
@@ -768,8 +770,6 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						m_c_x = m_c; 
 					}
 
-					A_offset = m*p*m_c*K + k*k_c;
-
 			            // pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K], A_p[core], 
 			            //    M, K, m*p*m_c, core*m_c_x, m_c_t, k_c_t, m_r, pad);
 					if((k == k_start) && (m == m_start) && (n != 0))  {
-- 
2.43.0


From f7c640f15787b3166daa709ad9f2e33d273872d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 08/14] fix: transpose_mat threads no longer write each other's
 edge blocks

---
 src/transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transpose.cpp b/src/transpose.cpp
index 6a03906..615c81c 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -18,7 +18,8 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 				for(int kk = k; kk < k + kt; kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, N - nn, K - kk);			
+						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, 
+							cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
 						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
 					}
-- 
2.43.0


From 6d7a1539bb653311f31fdd320887f2a5e697ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 09/14] fix: checkers report a NaN result as wrong

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..6f47b7f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -146,7 +146,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(C_check[ind1] != C[ind1] && !(fabs(C_check[ind1] - C[ind1]) <= eps)) {
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -221,7 +221,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(C_check[ind1] != C[ind1] && !(fabs(C_check[ind1] - C[ind1]) <= eps)) {
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0


From 3816e8851be666348d856020a3ebc5a1ce497668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 10/14] fix: cake_sgemm variants free the context they allocate

---
 src/cake_sgemm.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..6516ddd 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -11,6 +11,8 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	bool own_cntx = (cake_cntx == NULL);
+
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
 	}
@@ -170,6 +172,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return diff_t;
 }
@@ -181,6 +184,8 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	bool own_cntx = (cake_cntx == NULL);
+
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
 	}
@@ -242,6 +247,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return times;
 }
@@ -254,6 +260,8 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
 
+	bool own_cntx = (cake_cntx == NULL);
+
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
 	}
@@ -313,6 +321,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 	free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return times;
 }
@@ -399,6 +408,8 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	bool own_cntx = (cake_cntx == NULL);
+
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
 	}
@@ -463,6 +474,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 	free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return times;
 }
@@ -474,6 +486,8 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
+	bool own_cntx = (cake_cntx == NULL);
+
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
 	}
@@ -603,6 +617,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(C_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 
 	return times;
-- 
2.43.0


From d4eab4fd02f4b4d1b29d11a94756140c61e69eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 11/14] fix: system queries close every pipe they open

---
 src/block_sizing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 4bd0890..0878a2d 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -111,6 +111,7 @@ int get_num_physical_cores() {
 	char command2[128];
 
 	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
+	pclose(fp);
 	fp = popen(command2, "r");
 
 	if (fp == NULL) {
@@ -127,6 +128,7 @@ int get_num_physical_cores() {
 	char command3[128];
 
 	sprintf(command3, "lscpu | grep Socket -m 1 | tr -dc '0-9'");
+	pclose(fp);
 	fp = popen(command3, "r");
 
 	if (fp == NULL) {
@@ -274,12 +276,15 @@ int get_cache_size(int level) {
 		printf("lscpu error\n");
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
 		if(level == 2) {
+			pclose(fp);
 			return (32 * (1 << 10));
 		} else if(level == 3) {
+			pclose(fp);
 			return (512 * (1 << 10));
 		}
 	}
 
+	pclose(fp);
 	len = strlen(ret) - 1;
 
 	// set cache size variables
-- 
2.43.0


From 073e63bac8b7d9501891cf6a5447c08cedcc651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 12/14] fix: get_cache_size recognises cache sizes given in G

---
 src/block_sizing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 0878a2d..ca14bd5 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -256,13 +256,13 @@ int get_cache_size(int level) {
 	if(level < 3) {
 		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9]*M|[0-9]*K|[0-9]*G' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	} else {
 		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9]*M|[0-9]*K|[0-9]*G' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	}
-- 
2.43.0


From 2e213bef50c1e9b925806f1246054b15ef6fa9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 13/14] fix: cake_query_cntx_torch sets every field the library
 reads

---
 src/block_sizing.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index ca14bd5..0f94774 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -12,6 +12,10 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
     cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
+	ret->L1 = get_cache_size(1);
+	ret->ncores = get_num_physical_cores();
+	ret->peak_dram_bw = 32 * 1e9;
+	ret->peak_flops = 600 * 1e9;
  
     // query block size for the microkernel
 #ifdef USE_BLIS
@@ -24,11 +28,15 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
     ret->blis_cntx = NULL;
     ret->mr = 6;
     ret->nr = 16;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
     ret->mr = 8;
     ret->nr = 12;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 #endif
 
 	ret->L2 = L2;
-- 
2.43.0


From ac0b3547be3e8af7c1d9f6b954c464df124f8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:27 +0000
Subject: [PATCH 14/14] fix: automatic tiling never picks an empty tile when
 the caches are smaller than the kernel needs

---
 src/block_sizing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 0f94774..8c44c3a 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -332,6 +332,7 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 	mc_L2 = (int)  ((-b + sqrt(b*b + 4*(((double) cake_cntx->L2) / (2*type_size)))) / 2.0) ;
 	// mc_L2 -= (mc_L2 % mn_lcm);
 	mc_L2 -= (mc_L2 % mr);
+	mc_L2 = (mc_L2 < mr) ? mr : mc_L2; // L2 too small for the kernel: still one register tile
 	// printf("mc_L2 = %d\n", mc_L2);
 
 
@@ -687,7 +688,8 @@ void init_block_dims_2d(int M, int N, int K, int p,
 		// based on mc*kc + nr*kc + mc*nc <= L2
 		m_c = (int) ((-n_r + sqrt(1.0*n_r*n_r + 4.0*2*(((double) cake_cntx->L2) / 4.0))) / (2.0*2));
 		m_c -= (m_c % m_r);
-		k_c = kc_max;
+		m_c = (m_c < m_r) ? m_r : m_c; // L2 too small for the kernel: still one register tile
+		k_c = (kc_max < 1) ? 1 : kc_max;
 		k_c1 = K % k_c;
 	}
 
-- 
2.43.0

