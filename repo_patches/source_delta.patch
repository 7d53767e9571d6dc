From 7370b5722e0b338ef967a5d9d207de66422bb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 01/20] fix: release the matching and scratch arrays in the
 Dulmage-Mendelsohn and SCC decompositions

---
 src/spasm_dm.c  | 5 +++++
 src/spasm_scc.c | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/spasm_dm.c b/src/spasm_dm.c
index 8505d98..74e7cc0 100644
--- a/src/spasm_dm.c
+++ b/src/spasm_dm.c
@@ -1,5 +1,7 @@
 #include <assert.h>
 
+#include <stdlib.h>
+
 #include "spasm.h"
 
 /*
@@ -137,6 +139,8 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	collect_matched(m, wj, imatch, p, q, cc, rr, 2, -1);
 	collect_matched(m, wj, imatch, p, q, cc, rr, 3, 3);
 	collect_unmatched(n, wi, p, rr, 3);
+	free(jmatch);
+	free(imatch);
 
 	/* --- fine DM decomposition ---------------------------------- */
 
@@ -148,6 +152,7 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	struct spasm_csr *B = spasm_permute(A, p, qinv, SPASM_IGNORE_VALUES);
 	struct spasm_csr *C = spasm_submatrix(B, rr[1], rr[2], cc[2], cc[3], SPASM_IGNORE_VALUES);
 	spasm_csr_free(B);
+	free(qinv);
 
 	struct spasm_dm *SCC = spasm_strongly_connected_components(C);
 	int n_scc = SCC->nb;
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 2938b09..98590fa 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -112,6 +112,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 	free(stack);
 	free(pstack);
 	free(marks);
+	free(prev);
 	free(lowlink);
 	return P;
 }
-- 
2.43.0


From 337ebccb477f41098ba451f224da934c9589e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 02/20] fix: low-rank elimination must keep sampling from all
 the remaining rows

---
 src/spasm_echelonize.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..26f0546 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -366,7 +366,6 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
 		Sm -= rr;
 		rank_ub -= rr;
 		round += 1;
-- 
2.43.0


From 43fd7d2e0883b53ad28a6ea07d2e5ee4dce70f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 03/20] fix: the full-rank test of GPLU must account for the
 pivots already found

---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 26f0546..dac4fa7 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,7 +56,7 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
+	int r = spasm_min(fact->U->n + n, m);  /* upper-bound on rank */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
-- 
2.43.0


From f9380dbdfb4af8421387b96a376646ab3c479e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 04/20] fix: the rank bound of the dense elimination must count
 remaining rows only

---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index dac4fa7..7f504dc 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -406,7 +406,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, m - U->n);
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -435,7 +435,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, m - U->n);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From b0351013df877bcbd71517a7b62c2dd9382fb253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 05/20] fix: read rank certificates completely, into the right
 arrays, and refuse malformed ones

---
 src/spasm_certificate.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..104757f 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include <assert.h>
 #include <math.h>
 #include <err.h>
@@ -243,29 +244,33 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 {
 	int r;
-	if (1 != fscanf(f, "%d", &r))
+	if (1 != fscanf(f, "%d", &r) || r < 0)
 		return 0;
 	proof->r = r;
-	proof->i = malloc(r * sizeof(*proof->i));
-	proof->j = malloc(r * sizeof(*proof->i));
-	proof->x = malloc(r * sizeof(*proof->i));
-	proof->y = malloc(r * sizeof(*proof->i));
+	proof->i = spasm_malloc(r * sizeof(*proof->i));
+	proof->j = spasm_malloc(r * sizeof(*proof->j));
+	proof->x = spasm_malloc(r * sizeof(*proof->x));
+	proof->y = spasm_malloc(r * sizeof(*proof->y));
 	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
 		return 0;
 	char hash[65];
-	if (NULL == fgets(hash, 65, f))
+	if (NULL == fgets(hash, 65, f) || strlen(hash) != 64)
 		return 0;
 	for (int i = 0; i < 32; i++) {
 		char byte[3] = {hash[2*i], hash[2*i+1], 0};
 		proof->hash[i] = strtoul(byte, NULL, 16);
 	}
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->i[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->j[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->x[k]);
+		if (1 != fscanf(f, "%d", &proof->x[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->y[k]);
+		if (1 != fscanf(f, "%d", &proof->y[k]))
+			return 0;
 	return 1;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 4e2ccc4b28371f6e936b3f9c962fdb4c972af0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 06/20] fix: detect allocation failures in
 spasm_factorization_verify

---
 src/spasm_certificate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 104757f..c52a897 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -173,10 +173,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
-- 
2.43.0


From ca31daf7a883957d8ce7788ab53b4a2f9c19f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:52 +0000
Subject: [PATCH 07/20] fix: check_cert must refuse malformed certificates and
 report the actual verdict

---
 tools/check_cert.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..e4f4f34 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -70,13 +70,16 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
+	if (!spasm_rank_certificate_load(f, &proof)) {
+		fprintf(stderr, "MALFORMED certificate\n");
+		return EXIT_FAILURE;
+	}
 
 	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
 	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
 		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
+	return correct ? EXIT_SUCCESS : EXIT_FAILURE;
 }
\ No newline at end of file
-- 
2.43.0


From 868303eaf6cfde9e61e2f1a16971c66633e10c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 08/20] fix: a rank certificate must be about the input matrix,
 not about its transpose

---
 tools/rank.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/rank.c b/tools/rank.c
index 1437cab..f398183 100644
--- a/tools/rank.c
+++ b/tools/rank.c
@@ -81,7 +81,7 @@ int main(int argc, char **argv)
 	/* load input matrix */
 	u8 hash[32];
 	struct spasm_triplet *T = load_input_matrix(&args.input, hash);
-	if (args.allow_transpose && (T->n < T->m)) {
+	if (args.allow_transpose && !args.certificate && (T->n < T->m)) {
 		fprintf(stderr, "[rank] transposing matrix : ");
 		fflush(stderr);
 		spasm_triplet_transpose(T);
-- 
2.43.0


From a9cb7ea8f8fa6351dbcfc01993b81084cbdabdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 09/20] fix: echelonize must accept every 64-bit modulus

---
 tools/echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/echelonize.c b/tools/echelonize.c
index 6514a63..40e007c 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -27,7 +27,7 @@ void parse_command_line_options(int argc, char **argv)
 	while ((ch = getopt_long(argc, argv, "", longopts, NULL)) != -1) {
 		switch (ch) {
 		case 'p':
-			prime = atoi(optarg);
+			prime = atoll(optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 01868e53cc07bcc4ae7f110f7dce3754ca3ac9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 10/20] fix: keep entry counts and entry positions in 64 bits

---
 src/spasm_rref.c      | 2 +-
 src/spasm_scc.c       | 2 +-
 src/spasm_submatrix.c | 2 +-
 src/spasm_triplet.c   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 21d7b9f..5c19ae7 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -134,7 +134,7 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 
 		#pragma omp for
 		for (int i = 0; i < n; i++) {
-			int px = Rp[i];
+			i64 px = Rp[i];
 			int j = Rj[px];
 			Rqinv[j] = i;
 		}
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 98590fa..fa7bac7 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -58,7 +58,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 			int px2 = spasm_row_weight(A, j);
 			int px;
 			for (px = pstack[j]; px < px2; px++) {
-				int p = Ap[j] + px;
+				i64 p = Ap[j] + px;
 				int k = Aj[p];
 				if (marks[k] >= 0) {
 					/* update */
diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 78bd92f..9350d82 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -14,7 +14,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 
 	int Bn = spasm_max(0, r_1 - r_0);
 	int Bm = spasm_max(0, c_1 - c_0);
-	i64 Bnz = spasm_max(0, Ap[r_1] - Ap[r_0]);
+	i64 Bnz = (r_1 > r_0) ? Ap[r_1] - Ap[r_0] : 0;
 	struct spasm_csr *B = spasm_csr_alloc(Bn, Bm, Bnz, prime, (A->x != NULL) && with_values);
 	i64 *Bp = B->p;
 	int *Bj = B->j;
diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..ce2c2dc 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -121,7 +121,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 	spasm_ZZp *Cx = C->x;
 
 	/* compute row counts */
-	for (int it = 0; it < nz; it++) {
+	for (i64 it = 0; it < nz; it++) {
 		int i = Ti[it];
 		assert(i < n);
 		w[i] += 1;
@@ -151,7 +151,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 
 	/* success; free w and return C */
 	char mem[16];
-	int size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
+	i64 size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
 	spasm_human_format(size, mem);
 	fprintf(stderr, "%" PRId64 " actual NZ, Mem usage = %sbyte [%.2fs]\n", spasm_nnz(C), mem, spasm_wtime() - start);
 	return C;
-- 
2.43.0


From 3789debe3a4049e341c894c2fa5dd17cda5557a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 11/20] fix: stack must handle more than 2^31 entries

---
 tools/stack.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/stack.c b/tools/stack.c
index 812fc16..6f19a23 100644
--- a/tools/stack.c
+++ b/tools/stack.c
@@ -8,7 +8,8 @@
 
 int main() {
 	struct spasm_triplet *A;
-	int n, m, nz, u, v;
+	int n, m, u, v;
+	i64 nz;
 	int *p, *q, *Ai, *Aj;
 
 	A = spasm_triplet_load(stdin, 42013, NULL);
@@ -32,7 +33,7 @@ int main() {
 		q[j] = 0;
 	
 	/* mark non-empty rows/columns */
-	for (int k = 0; k < nz; k++) {
+	for (i64 k = 0; k < nz; k++) {
 		p[Ai[k]] = 1;
 		q[Aj[k]] = 1;
 	}
@@ -54,7 +55,7 @@ int main() {
 	A->m = v;
 	fprintf(stderr, "but is in fact %d x %d\n", u, v);
 
-	for (int k = 0; k < nz; k++) {
+	for (i64 k = 0; k < nz; k++) {
 		Ai[k] = p[Ai[k]];
 		Aj[k] = q[Aj[k]];
 	}
-- 
2.43.0


From 88379344c062731cb5bb81754a171aed9b4c4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:25 +0000
Subject: [PATCH 12/20] fix: spasm_kernel_from_rref must not truncate entry
 positions

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..40fa1c3 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -146,7 +146,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 	const i64 *Rp = R->p;
 	const int *Rj = R->j;
 	for (int i = 0; i < n; i++) {
-		int px = Rp[i];
+		i64 px = Rp[i];
 		int j = Rj[px];
 		p[i] = j;
 	}
-- 
2.43.0


From d45976f97a9e48ce9feeb85738edf1e10758ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 13/20] fix: store -1 in balanced form in
 spasm_kernel_from_rref

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 40fa1c3..00c105f 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From ca3b6237ebc29f7a7c266c763f928102296065de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 14/20] fix: compute the size of bitmaps in 64 bits

---
 src/spasm_io.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..138bb42 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -208,12 +208,13 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	int m = A->m;
 	x = spasm_min(x, m);
 	y = spasm_min(y, n);
-	int *w = spasm_malloc(x * y * sizeof(int));
+	i64 size = (i64) x * y;
+	int *w = spasm_malloc(size * sizeof(int));
 	assert(f != NULL);
 	assert((mode-1)*(mode-2)*(mode-3) == 0);
 	assert((mode != 3) || (DM != NULL));
-	for (int i = 0; i < x*y; i++)
-		w[i] = 0;
+	for (i64 k = 0; k < size; k++)
+		w[k] = 0;
 
 	fprintf(f, "P%d\n", mode);
 	fprintf(f, "%d %d\n", x, y);
@@ -230,8 +231,8 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	}
 
 	double max = 0;
-	for (int j = 0; j < x * y; j++)
-		max = spasm_max(max, w[j]);
+	for (i64 k = 0; k < size; k++)
+		max = spasm_max(max, w[k]);
 
 	int bgcolor[3][3] = {
 		{0xFF0000, 0xCC0000, 0x990000},
@@ -255,7 +256,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 		c = DM->c;
 	}
 
-	int t = 0;
+	i64 t = 0;
 	double intensity;
 	int scc = 0;
 	int scc_left_edge = 0;
@@ -263,12 +264,13 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	int scc_bot_edge = 0;
 	for (int i = 0; i < y; i++) {
 		for (int j = 0; j < x; j++) {
+			int wij = w[(i64) i * x + j];
 			switch(mode) {
 			case 1:
-				fprintf(f, "%d ", (w[i * x + j] > 0) ? 1 : 0);
+				fprintf(f, "%d ", (wij > 0) ? 1 : 0);
 				break;
 			case 2: 
-				intensity = 1.0 - exp(0.1 * log(w[i * x + j] / max));
+				intensity = 1.0 - exp(0.1 * log(wij / max));
 				/* intensity = 1.0 - ((double) w[i * x + j]) / max; */
 				assert(0 <= intensity && intensity <= 1.0);
 				fprintf(f, "%.0f ", 255.0 * intensity);
@@ -299,7 +301,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 						bg += 0x003366;
 				}
 
-				int pixel = (w[i * x + j] > 0) ? 0 : bg;
+				int pixel = (wij > 0) ? 0 : bg;
 				fprintf(f, "%d %d %d ", (pixel >> 16) & 0xFF, (pixel >> 8) & 0xFF, pixel & 0xFF);
 			}
 			
-- 
2.43.0


From b22420d00e72fc28ccb1d007f47926a2ffdd9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 15/20] fix: spasm_realloc must detect the failure of an
 initial allocation

---
 src/spasm_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..eb9b5e5 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -81,7 +81,7 @@ void *spasm_calloc(i64 count, i64 size)
 void *spasm_realloc(void *ptr, i64 size)
 {
 	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	if (x == NULL && size != 0)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From 709bb1a4b326707c470b0de3badd0600da38eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 16/20] fix: spasm_human_format must fill its buffer for every
 value

---
 src/spasm_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index eb9b5e5..54129b5 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -60,6 +60,7 @@ void spasm_human_format(i64 n, char *target)
 		snprintf(target, 8, "%.1ft", n / 1e12);
 		return;
 	}
+	snprintf(target, 8, "%.1fp", n / 1e15);
 }
 
 void *spasm_malloc(i64 size)
-- 
2.43.0


From f0c885368bf68ec5a69f070481743b0242e44b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 17/20] fix: remove_explicit_zeroes must not read the row
 pointers it has already rewritten

---
 src/spasm_triplet.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index ce2c2dc..a447b6c 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -43,6 +43,7 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 		return;
 	i64 nz = 0;
 	for (int i = 0; i < n; i++) {
+		i64 p = nz;
 		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
@@ -52,8 +53,9 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 			Ax[nz] = x;
 			nz += 1;
 		}
-		Ap[i + 1] = nz;
+		Ap[i] = p;
 	}
+	Ap[n] = nz;
 	spasm_csr_realloc(A, -1);
 }
 
-- 
2.43.0


From 36717dcb7044d0b10e2a708e5c0dc215202ed4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:13 +0000
Subject: [PATCH 18/20] fix: bitmap: keep the aspect ratio when one dimension
 is given

m * (h / n) is an integer division: it gives 0 columns as soon as the
matrix has more rows than the picture, and multiples of m otherwise.
---
 tools/bitmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index 687375a..a32a79a 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -60,10 +60,10 @@ int main(int argc, char **argv) {
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
 	if ((mpix < 0) && (w < 0) && (h > 0))
-		w = m * (h / n);
+		w = (n > 0) ? ((i64) m) * spasm_min(h, n) / n : m;
 
 	if ((mpix < 0) && (w > 0) && (h < 0))
-		h = n * (w / m);
+		h = (m > 0) ? ((i64) n) * spasm_min(w, m) / m : n;
 
 	w = spasm_min(w, m);
 	h = spasm_min(h, n);
-- 
2.43.0


From 4524523281d2a4eb7b7662d4a892a9c77a7aa69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:35 +0000
Subject: [PATCH 19/20] fix: spasm_save_pnm: pictures have at least one row and
 one column

A picture without rows or columns has no pixel, yet the entries of the
matrix were counted in it (write past an empty allocation).
---
 src/spasm_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 138bb42..3fad6c0 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -206,8 +206,8 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	const i64 *Ap = A->p;
 	int n = A->n;
 	int m = A->m;
-	x = spasm_min(x, m);
-	y = spasm_min(y, n);
+	x = spasm_max(1, spasm_min(x, m));
+	y = spasm_max(1, spasm_min(y, n));
 	i64 size = (i64) x * y;
 	int *w = spasm_malloc(size * sizeof(int));
 	assert(f != NULL);
-- 
2.43.0


From 68ecdffb25b401dad5ff54a338b36f96c6050873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 20/20] fix: spasm_save_pnm: gray pictures of matrices without
 entries

0 / 0 is not a number and the assertion on the intensity failed.
---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 3fad6c0..930b4db 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -270,7 +270,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 				fprintf(f, "%d ", (wij > 0) ? 1 : 0);
 				break;
 			case 2: 
-				intensity = 1.0 - exp(0.1 * log(wij / max));
+				intensity = (wij > 0) ? 1.0 - exp(0.1 * log(wij / max)) : 1.0;
 				/* intensity = 1.0 - ((double) w[i * x + j]) / max; */
 				assert(0 <= intensity && intensity <= 1.0);
 				fprintf(f, "%.0f ", 255.0 * intensity);
-- 
2.43.0

