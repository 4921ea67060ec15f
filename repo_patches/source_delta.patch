From 68ccdc4f4372c86cdd21413e05f83b3b96313827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 01/23] fix: draw a full last byte in bits_new_rand for
 byte-multiple lengths

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 0d60c26..cb238d5 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -20,7 +20,7 @@ bits_t *bits_new_rand(size_t bit_len) {
 	bits_t *result = bits_new(bit_len);
 	for (size_t i = 0; i < result->allocated; ++i) {
 		if (i == result->allocated - 1) {
-			size_t last_bits = bit_len % 8;
+			size_t last_bits = bit_len % 8 ? bit_len % 8 : 8;
 			result->bits[i] = (unsigned char)random_bits(last_bits)
 			                  << (8 - last_bits);
 		} else {
-- 
2.43.0


From 3ea2e8b116366dd8b0c4a69097f8c5ba706dcd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 02/23] fix: clear the unused trailing bits in bits_from_raw

---
 src/util/bits.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/bits.c b/src/util/bits.c
index cb238d5..f060161 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -135,6 +135,9 @@ bits_t *bits_from_raw(const unsigned char *bits, size_t bit_len) {
 	result->bitlen = bit_len;
 	result->allocated = BYTE_LEN(bit_len);
 	if (bit_len > 0) result->bits = try_memdup(bits, result->allocated);
+	if (bit_len % 8 != 0) {
+		result->bits[bit_len / 8] &= (unsigned char)(0xff << (8 - bit_len % 8));
+	}
 	return result;
 }
 
-- 
2.43.0


From 31cac7756910c21449399d959dd10ff7285d7494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 03/23] fix: rotate right by more than the length correctly in
 bits_shiftrz

---
 src/util/bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index f060161..4463f49 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -409,8 +409,8 @@ void bits_shiftrz(bits_t *bits, long amount) {
 		} else if (amount > 0) {
 			new_pos = (i + amount) % bits->bitlen;
 		} else if (amount < 0) {
-			long mod_amount = amount % bits->bitlen;
-			new_pos = (i + mod_amount) % bits->bitlen;
+			long mod_amount = amount % (long)bits->bitlen;
+			new_pos = (i + bits->bitlen + mod_amount) % bits->bitlen;
 		}
 		new_bit = (unsigned char)GET_BIT(original_bits, new_pos);
 		bits->bits[i / 8] |= new_bit << (7 - (i % 8));
-- 
2.43.0


From c65b01212c7eb1c5864d626f5aeb4e47b6c74a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 04/23] fix: do not flip the sign of the shared zero constant
 in bits_to_i

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 4463f49..ee93b75 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -157,7 +157,7 @@ GEN bits_to_i(const bits_t *bits) {
 		if (GET_BIT(bits->bits, i) != 0)
 			result = addii(result, int2n(bits->bitlen - i - 1));
 	}
-	if (bits->sign) {
+	if (bits->sign && signe(result) != 0) {
 		setsigne(result, -1);
 	}
 	return gerepilecopy(ltop, result);
-- 
2.43.0


From 16e10dccafadad737bf9fab313fb25cc30da529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 05/23] fix: keep track of the grown array in str_joinv

---
 src/util/str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/str.c b/src/util/str.c
index ff075f2..a5cfff5 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -51,7 +51,8 @@ char *str_joinv(char *separator, ...) {
 	size_t i = 0;
 	while ((next = va_arg(valist, char *)) != NULL) {
 		if (i == len) {
-			strings = try_realloc(strings, (len * 2) * sizeof(char *));
+			len *= 2;
+			strings = try_realloc(strings, len * sizeof(char *));
 		}
 		strings[i++] = next;
 	}
-- 
2.43.0


From 34f1b874469dc4cebbc28d75054851a445c0f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:24 +0000
Subject: [PATCH 06/23] fix: do not underflow the length when joining no
 strings

---
 src/util/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/str.c b/src/util/str.c
index a5cfff5..0bbc327 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -28,7 +28,7 @@ char *str_join(char *separator, char **strings, size_t len) {
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) total += strlen(strings[i]);
 	}
-	if (separator) total += (len - 1) * strlen(separator);
+	if (separator && len) total += (len - 1) * strlen(separator);
 	char *result = try_calloc(total);
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) {
-- 
2.43.0


From 85d753bd50e752c335b380217e4b96602d47d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:14 +0000
Subject: [PATCH 07/23] fix: never pick the point at infinity in
 point_gen_random

---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 21d0c26..3af4b06 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -12,7 +12,7 @@ GENERATOR(point_gen_random) {
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
-	GEN mul = random_range(gen_0, subgroup->generator->order);
+	GEN mul = random_range(gen_1, subgroup->generator->order);
 	GEN p = ellmul(curve->curve, subgroup->generator->point, mul);
 	point_t *point = point_new();
 	point->point = p;
-- 
2.43.0


From 35665e819e46da8baaceeddaa7fa96cf8c0fe1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 08/23] fix: keep all the requested orders in points_gen_trial

---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 3af4b06..833a3f1 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -118,7 +118,7 @@ GENERATOR(points_gen_trial) {
 				if (orders_per_gen[i] == gen_0) {
 					orders_per_gen[i] = gtovec(num);
 				} else {
-					vec_append(orders_per_gen[i], num);
+					orders_per_gen[i] = vec_append(orders_per_gen[i], num);
 				}
 			}
 		}
-- 
2.43.0


From 011c83a64635d2daee3802fa1a32900a50632874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:45 +0000
Subject: [PATCH 09/23] fix: separate the points searched by the hex check

---
 src/gen/hex.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/gen/hex.c b/src/gen/hex.c
index 58250a0..6e2d92d 100644
--- a/src/gen/hex.c
+++ b/src/gen/hex.c
@@ -27,14 +27,8 @@ static char *hex_points(point_t *points[], size_t len) {
 		p[i] = hex_point(pt);
 	}
 
-	size_t total = 1;
+	char *result = str_join(",", p, len);
 	for (size_t i = 0; i < len; ++i) {
-		total += strlen(p[i]);
-	}
-
-	char *result = try_calloc(total);
-	for (size_t i = 0; i < len; ++i) {
-		strcat(result, p[i]);
 		try_free(p[i]);
 	}
 	return result;
-- 
2.43.0


From f85d54d01bff18a3fd9fb886bada7b378b135e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 10/23] fix: honour the points option when the CM order is
 prime

---
 src/cm/cm.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 9dffc1d..0a76483 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -68,7 +68,6 @@ static void cm_ginit(gen_f *generators, bool prime) {
 		generators[OFFSET_B] = &gen_skip;
 		if (prime) {
 			generators[OFFSET_CURVE] = &cm_gen_curve_prime;
-			generators[OFFSET_POINTS] = &points_gen_prime;
 		} else {
 			generators[OFFSET_CURVE] = &cm_gen_curve_any;
 		}
-- 
2.43.0


From a0445076d84b830dff4ba1e12fd5ae066a108102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:48 +0000
Subject: [PATCH 11/23] fix: report order options the seed procedures do not
 honour

---
 src/exhaustive/exhaustive.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e8870f8..476c77f 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -47,7 +47,10 @@ static void exhaustive_ginit(gen_f *generators) {
 	GET(field);
 
 	if (GET_BOOL(seed_algo)) {
-		if (GET_BOOL(prime)) {
+		if (cfg->seed_algo != SEED_ANSI) {
+			// the other procedures only give curves of prime order
+			GET(prime);
+		} else if (GET_BOOL(prime)) {
 			generators[OFFSET_ORDER] = &order_gen_prime;
 		} else if (GET_BOOL(cofactor)) {
 			generators[OFFSET_ORDER] = &order_gen_cofactor;
@@ -57,7 +60,10 @@ static void exhaustive_ginit(gen_f *generators) {
 			generators[OFFSET_ORDER] = &order_gen_any;
 		}
 
-		if (GET_BOOL(unique)) {
+		if (cfg->seed_algo != SEED_ANSI) {
+			// with a single generator
+			GET(unique);
+		} else if (GET_BOOL(unique)) {
 			generators[OFFSET_GENERATORS] = &gens_gen_one;
 		} else if (GET_BOOL(cofactor)) {
 			generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
-- 
2.43.0


From 04f35907378c3a21cc8c30eda420dfb991bd2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:26 +0000
Subject: [PATCH 12/23] fix: use the Koblitz order table only for Koblitz
 curves over binary fields

---
 src/gen/order.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index a9d22b2..de4fae3 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -104,7 +104,10 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	GEN order = koblitz_get_order(cfg->bits, itou(curve->a));
+	GEN order = NULL;
+	if (typ(curve->field) == t_FFELT && koblitz_is_curve(curve)) {
+		order = koblitz_get_order(cfg->bits, itou(field_elementi(curve->a)));
+	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
 		obj_insert_shallow(curve->curve, 1, curve->order);
-- 
2.43.0


From 91b4d9fac0dd6a3705b9e686e9a282ccf2eee1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:26 +0000
Subject: [PATCH 13/23] fix: cache the saved order, not the released one, after
 SEA

---
 src/gen/order.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index de4fae3..05facd6 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -41,7 +41,7 @@ GENERATOR(order_gen_sea) {
 		return -4;
 	} else {
 		curve->order = gerepilecopy(ltop, order);
-		obj_insert_shallow(curve->curve, 1, order);
+		obj_insert_shallow(curve->curve, 1, curve->order);
 		return 1;
 	}
 }
-- 
2.43.0


From 801f0438a68abdb0d28053bba1dcf54c007c75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:23 +0000
Subject: [PATCH 14/23] fix: no embedding degree when the field prime divides
 the order

---
 src/gen/gens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index a743e79..da6195b 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -104,7 +104,7 @@ CHECK(gens_check_anomalous) {
 }
 
 GEN gens_get_embedding(GEN prime, GEN generator_order) {
-	if (gequal(prime, generator_order)) {
+	if (dvdii(generator_order, prime)) {
 		return stoi(0);
 	}
 	return znorder(mkintmod(prime, generator_order), NULL);
-- 
2.43.0


From f8d76b2083a280059b19831a54cacc5c75ccc985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 15/23] fix: derive the cofactor subgroup's generator for every
 group structure

---
 src/gen/gens.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index da6195b..b720858 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -67,11 +67,11 @@ GENERATOR(gens_gen_cofactor) {
 			break;
 		}
 
-		if (dvdiu(gen_order, cofactor)) {
-			GEN res = diviuexact(gen_order, cofactor);
+		if (dvdii(gen_order, order)) {
+			GEN mult = diviiexact(gen_order, order);
 			p = point_new();
-			p->point = gcopy(ellmul(curve->curve, gen, utoi(cofactor)));
-			p->order = res;
+			p->point = gcopy(ellmul(curve->curve, gen, mult));
+			p->order = order;
 			p->cofactor = utoi(cofactor);
 			break;
 		}
-- 
2.43.0


From 61bd376df0a761fc980ba6aee495a2604589d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:15 +0000
Subject: [PATCH 16/23] fix: redraw an ANSI seed whose r vanishes modulo the
 field prime

---
 src/exhaustive/ansi.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index e369fb2..ee64806 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -124,6 +124,13 @@ static GENERATOR(ansi_gen_equation_fp) {
 	curve->seed->ansi.r = r;
 
 	GEN r_inv = Fp_invsafe(r, curve->field);
+	if (!r_inv) {
+		bits_free(&c0);
+		bits_free(&W0);
+		bits_free(&W);
+		avma = ltop;
+		return -3;
+	}
 	GEN a;
 	GEN b2;
 	do {
-- 
2.43.0


From 050b11294367615d2662e270b4b0ccf75e50125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:15 +0000
Subject: [PATCH 17/23] fix: reduce the ANSI coefficient a modulo the field
 prime

---
 src/exhaustive/ansi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index ee64806..35c22e4 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -134,7 +134,7 @@ static GENERATOR(ansi_gen_equation_fp) {
 	GEN a;
 	GEN b2;
 	do {
-		a = random_int(cfg->bits);
+		a = Fp_red(random_int(cfg->bits), curve->field);
 		b2 = mulii(powis(a, 3), r_inv);
 	} while (!Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
-- 
2.43.0


From e32a654a6e72369c2b678c2dcd08b0f8e200dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:25 +0000
Subject: [PATCH 18/23] fix: copies of a curve keep its metadata

---
 src/obj/curve.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/obj/curve.c b/src/obj/curve.c
index 4821442..80de00f 100644
--- a/src/obj/curve.c
+++ b/src/obj/curve.c
@@ -16,6 +16,17 @@ curve_t *curve_copy(const curve_t *src, curve_t *dest) {
 		dest->generators = subgroups_new_copy(src->generators, src->ngens);
 		dest->ngens = src->ngens;
 	}
+	if (src->meta.j_invariant)
+		dest->meta.j_invariant = gcopy(src->meta.j_invariant);
+	if (src->meta.discriminant)
+		dest->meta.discriminant = gcopy(src->meta.discriminant);
+	if (src->meta.cm_discriminant)
+		dest->meta.cm_discriminant = gcopy(src->meta.cm_discriminant);
+	if (src->meta.frobenius_trace)
+		dest->meta.frobenius_trace = gcopy(src->meta.frobenius_trace);
+	if (src->meta.embedding_degree)
+		dest->meta.embedding_degree = gcopy(src->meta.embedding_degree);
+	if (src->meta.conductor) dest->meta.conductor = gcopy(src->meta.conductor);
 	return dest;
 }
 
@@ -30,6 +41,17 @@ curve_t *curve_clone(const curve_t *src, curve_t *dest) {
 		dest->generators = subgroups_new_clone(src->generators, src->ngens);
 		dest->ngens = src->ngens;
 	}
+	if (src->meta.j_invariant)
+		dest->meta.j_invariant = gclone(src->meta.j_invariant);
+	if (src->meta.discriminant)
+		dest->meta.discriminant = gclone(src->meta.discriminant);
+	if (src->meta.cm_discriminant)
+		dest->meta.cm_discriminant = gclone(src->meta.cm_discriminant);
+	if (src->meta.frobenius_trace)
+		dest->meta.frobenius_trace = gclone(src->meta.frobenius_trace);
+	if (src->meta.embedding_degree)
+		dest->meta.embedding_degree = gclone(src->meta.embedding_degree);
+	if (src->meta.conductor) dest->meta.conductor = gclone(src->meta.conductor);
 	return dest;
 }
 
@@ -58,6 +80,24 @@ void curve_free(curve_t **curve) {
 		if ((*curve)->order && isclone((*curve)->order)) {
 			gunclone((*curve)->order);
 		}
+		if ((*curve)->meta.j_invariant && isclone((*curve)->meta.j_invariant)) {
+			gunclone((*curve)->meta.j_invariant);
+		}
+		if ((*curve)->meta.discriminant && isclone((*curve)->meta.discriminant)) {
+			gunclone((*curve)->meta.discriminant);
+		}
+		if ((*curve)->meta.cm_discriminant && isclone((*curve)->meta.cm_discriminant)) {
+			gunclone((*curve)->meta.cm_discriminant);
+		}
+		if ((*curve)->meta.frobenius_trace && isclone((*curve)->meta.frobenius_trace)) {
+			gunclone((*curve)->meta.frobenius_trace);
+		}
+		if ((*curve)->meta.embedding_degree && isclone((*curve)->meta.embedding_degree)) {
+			gunclone((*curve)->meta.embedding_degree);
+		}
+		if ((*curve)->meta.conductor && isclone((*curve)->meta.conductor)) {
+			gunclone((*curve)->meta.conductor);
+		}
 
 		try_free(*curve);
 		*curve = NULL;
-- 
2.43.0


From dd145cb1b524e035708abfdc84ddb2bf625d30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:34 +0000
Subject: [PATCH 19/23] fix: copies of a seed keep its type and parameters

---
 src/gen/seed.c | 69 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/src/gen/seed.c b/src/gen/seed.c
index 3e67135..7505ebb 100644
--- a/src/gen/seed.c
+++ b/src/gen/seed.c
@@ -9,13 +9,47 @@
 
 seed_t *seed_new(void) { return try_calloc(sizeof(seed_t)); }
 
-seed_t *seed_copy(const seed_t *src, seed_t *dest) {
+static void seed_common(const seed_t *src, seed_t *dest) {
 	if (src->seed) {
 		dest->seed = bits_copy(src->seed);
 	}
 	if (src->hash20) {
 		dest->hash20 = try_memdup(src->hash20, 20);
 	}
+	dest->type = src->type;
+	if (src->type == SEED_BRAINPOOL || src->type == SEED_BRAINPOOL_RFC) {
+		dest->brainpool.update_seed = src->brainpool.update_seed;
+		dest->brainpool.w = src->brainpool.w;
+		dest->brainpool.v = src->brainpool.v;
+		if (src->brainpool.seed_a) {
+			dest->brainpool.seed_a = bits_copy(src->brainpool.seed_a);
+		}
+		if (src->brainpool.seed_b) {
+			dest->brainpool.seed_b = bits_copy(src->brainpool.seed_b);
+		}
+	}
+}
+
+seed_t *seed_copy(const seed_t *src, seed_t *dest) {
+	seed_common(src, dest);
+	switch (src->type) {
+		case SEED_ANSI:
+			if (src->ansi.t) dest->ansi.t = gcopy(src->ansi.t);
+			if (src->ansi.s) dest->ansi.s = gcopy(src->ansi.s);
+			if (src->ansi.h) dest->ansi.h = gcopy(src->ansi.h);
+			if (src->ansi.r) dest->ansi.r = gcopy(src->ansi.r);
+			break;
+		case SEED_BRAINPOOL:
+		case SEED_BRAINPOOL_RFC:
+			if (src->brainpool.mult)
+				dest->brainpool.mult = gcopy(src->brainpool.mult);
+			break;
+		case SEED_FAMILY:
+			if (src->family.z) dest->family.z = gcopy(src->family.z);
+			break;
+		default:
+			break;
+	}
 	return dest;
 }
 
@@ -25,7 +59,26 @@ seed_t *seed_new_copy(const seed_t *src) {
 }
 
 seed_t *seed_clone(const seed_t *src, seed_t *dest) {
-	return seed_copy(src, dest);
+	seed_common(src, dest);
+	switch (src->type) {
+		case SEED_ANSI:
+			if (src->ansi.t) dest->ansi.t = gclone(src->ansi.t);
+			if (src->ansi.s) dest->ansi.s = gclone(src->ansi.s);
+			if (src->ansi.h) dest->ansi.h = gclone(src->ansi.h);
+			if (src->ansi.r) dest->ansi.r = gclone(src->ansi.r);
+			break;
+		case SEED_BRAINPOOL:
+		case SEED_BRAINPOOL_RFC:
+			if (src->brainpool.mult)
+				dest->brainpool.mult = gclone(src->brainpool.mult);
+			break;
+		case SEED_FAMILY:
+			if (src->family.z) dest->family.z = gclone(src->family.z);
+			break;
+		default:
+			break;
+	}
+	return dest;
 }
 
 seed_t *seed_new_clone(const seed_t *src) {
@@ -33,6 +86,12 @@ seed_t *seed_new_clone(const seed_t *src) {
 	return seed_clone(src, result);
 }
 
+static void clone_free(GEN x) {
+	if (x && isclone(x)) {
+		gunclone(x);
+	}
+}
+
 void seed_free(seed_t **seed) {
 	if (*seed) {
 		bits_free(&(*seed)->seed);
@@ -41,11 +100,16 @@ void seed_free(seed_t **seed) {
 		}
 		switch ((*seed)->type) {
 			case SEED_ANSI:
+				clone_free((*seed)->ansi.t);
+				clone_free((*seed)->ansi.s);
+				clone_free((*seed)->ansi.h);
+				clone_free((*seed)->ansi.r);
 				break;
 			case SEED_BRAINPOOL:
 			case SEED_BRAINPOOL_RFC:
 				bits_free(&(*seed)->brainpool.seed_a);
 				bits_free(&(*seed)->brainpool.seed_b);
+				clone_free((*seed)->brainpool.mult);
 				break;
 			case SEED_FIPS:
 				break;
@@ -54,6 +118,7 @@ void seed_free(seed_t **seed) {
 			case SEED_NONE:
 				break;
 			case SEED_FAMILY:
+				clone_free((*seed)->family.z);
 				break;
 		}
 		try_free(*seed);
-- 
2.43.0


From 42fb6a9d0e2685d45c8f2bbbfacdca3d711bcf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:45 +0000
Subject: [PATCH 20/23] fix: refuse input numbers that do not fit the bits
 asked for

---
 src/io/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.c b/src/io/input.c
index 507bd59..6a91644 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -43,7 +43,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 	// check bitsize here
 	GEN size = int2n(bits);
-	if (cmpii(in, size) <= 0) {
+	if (abscmpii(in, size) < 0) {
 		return gerepileupto(ltop, in);
 	} else {
 		fprintf(err, "Number too big(> %ld bits).\n", bits);
-- 
2.43.0


From 9c4708472efa2560644c68d19972e1c4bfb52038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:45 +0000
Subject: [PATCH 21/23] fix: end of input while reading a field stops the run

---
 src/gen/field.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/gen/field.c b/src/gen/field.c
index 3c93880..82159e9 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -50,23 +50,39 @@ GENERATOR(field_gen_input) {
 		}
 		case FIELD_BINARY: {
 			GEN m = input_short("m:");
+			if (equalii(m, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (!equalis(m, cfg->bits)) {
 				avma = ltop;
 				return 0;
 			}
 
 			GEN e1 = input_short("e1:");
-			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
+			if (equalii(e1, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (signe(e1) < 0 || gcmp(e1, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e2 = input_short("e2:");
-			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
+			if (equalii(e2, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (signe(e2) < 0 || gcmp(e2, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e3 = input_short("e3:");
-			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
+			if (equalii(e3, gen_m2)) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (signe(e3) < 0 || gcmp(e3, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
@@ -114,7 +130,7 @@ GENERATOR(field_gen_once) {
 		curve_field = curve;
 		return 1;
 	} else {
-		return 0;
+		return inp;
 	}
 }
 
-- 
2.43.0


From 4274cb8b2a94fac76e0aceaca9fd07b1aa38c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:45 +0000
Subject: [PATCH 22/23] fix: end of input while reading a seed stops the run

---
 src/exhaustive/ansi.c      |  4 ++++
 src/exhaustive/brainpool.c |  4 ++++
 src/io/input.c             | 11 ++++++-----
 src/io/input.h             |  2 +-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 35c22e4..4ba1ea1 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -58,6 +58,10 @@ GENERATOR(ansi_gen_seed_input) {
 	pari_sp ltop = avma;
 
 	GEN str = input_string("seed:");
+	if (!str) {
+		avma = ltop;
+		return INT_MIN;
+	}
 	const char *cstr = GSTR(str);
 	if (!ansi_seed_valid(cstr)) {
 		fprintf(err, "SEED must be at least 160 bits(40 hex characters).\n");
diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 56c095d..6364077 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -84,6 +84,10 @@ GENERATOR(brainpool_gen_seed_input) {
 	pari_sp ltop = avma;
 
 	GEN str = input_string("seed:");
+	if (!str) {
+		avma = ltop;
+		return INT_MIN;
+	}
 	const char *cstr = GSTR(str);
 	if (!brainpool_seed_valid(cstr)) {
 		fprintf(err, "SEED must be exactly 160 bits(40 hex characters).\n");
diff --git a/src/io/input.c b/src/io/input.c
index 6a91644..56a262f 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -80,14 +80,15 @@ GEN input_string(const char *prompt) {
 
 	ssize_t len = getdelim(&line, &n, delim, in);
 	if (len <= 0) {
-		return strtoGENstr("");
-	}
-	if (len == 1) {
+		fprintf(err, "Couldn't read a string. Reached EOF!\n");
 		free(line);
-		return strtoGENstr("");
+		return NULL;
 	}
 
-	line[len - 1] = 0;
+	// strip the delimiter, absent at the end of the input
+	if (line[len - 1] == delim || line[len - 1] == '\n') {
+		line[len - 1] = 0;
+	}
 	GEN result = strtoGENstr(line);
 	free(line);
 	return result;
diff --git a/src/io/input.h b/src/io/input.h
index a56347a..4456077 100644
--- a/src/io/input.h
+++ b/src/io/input.h
@@ -37,7 +37,7 @@ GEN input_short(const char *prompt);
 /**
  * @brief Input a string.
  * @param prompt
- * @return the string as a t_STR
+ * @return the string as a t_STR, or <code>NULL</code> at the end of the input.
  */
 GEN input_string(const char *prompt);
 
-- 
2.43.0


From 309fbae1a9fdf86a664748ab0367c8eabdc7ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:32 +0000
Subject: [PATCH 23/23] fix: add the missing reduction polynomial of degree
 1060

---
 src/math/poly.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/poly.c b/src/math/poly.c
index 0a042c4..692c974 100644
--- a/src/math/poly.c
+++ b/src/math/poly.c
@@ -963,7 +963,8 @@ static polynomial_t ansi_trinomials[] = {
     {1028, 119}, {1029, 98},  {1030, 93},  {1031, 68},  {1033, 108},
     {1034, 75},  {1036, 411}, {1039, 21},  {1041, 412}, {1042, 439},
     {1044, 41},  {1047, 10},  {1049, 141}, {1050, 159}, {1052, 291},
-    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1062, 49},
+    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1060, 439},
+    {1062, 49},
     {1063, 168}, {1065, 463}, {1071, 7},   {1078, 361}, {1079, 230},
     {1081, 24},  {1082, 407}, {1084, 189}, {1085, 62},  {1086, 189},
     {1087, 112}, {1089, 91},  {1090, 79},  {1092, 23},  {1094, 57},
-- 
2.43.0

