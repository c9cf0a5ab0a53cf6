From 2f1724a4a4f635ee4a3d1bdcccfc7f7f93e02a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 01/85] fix: an unsigned integer compares greater than any
 negative one

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..cc87fd1 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -201,7 +201,7 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 			int64_t _b = pointless_int_value_signed(t_b, v_b);
 
 			if (_b < 0)
-				return -1;
+				return +1;
 
 			return SIMPLE_CMP(_a, (uint64_t)_b);
 		}
-- 
2.43.0


From 37b56f9d903bde4212483015426922f30e7d7068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 02/85] fix: compare bit vectors of different encodings by
 their own bits

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index ad263cb..607ce02 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -163,7 +163,7 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 
 	for (i = 0; i < n_bits; i++) {
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
-		bb = pointless_bitvector_is_set(t_a, v_b, buffer_b, i);
+		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
 		if (ba != bb)
 			return SIMPLE_CMP(ba, bb);
-- 
2.43.0


From 3d4131104c3dcc7689b5c30f7e4e8fcca198b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 03/85] fix: keys of different kinds with the same hash are not
 duplicates, 64-bit integers are comparable at creation

---
 src/pointless_cmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index cc87fd1..6c9aa34 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -456,6 +456,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 			return pointless_cmp_create_string_unicode;
 		case POINTLESS_I32:
 		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
 		case POINTLESS_BOOLEAN:
 		case POINTLESS_FLOAT:
 			return pointless_cmp_create_int_float;
@@ -523,7 +525,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From 5e21a66d7362ee940899e8a9461b4a7601ea036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 04/85] fix: compare natively typed vectors by their items at
 creation, not by taking the items for handles

---
 src/pointless_cmp.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 6c9aa34..4c498e6 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -335,6 +335,42 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 				assert(0);
 				break;
 		}
+	// vectors of native items, owned by us, whose items are not handles
+	} else if (v->header.type_29 != POINTLESS_VECTOR_VALUE && v->header.type_29 != POINTLESS_VECTOR_VALUE_HASHABLE && !v->header.is_compressed_vector) {
+		void* items = cv_get_priv_vector(&_v)->vector._data;
+
+		switch (v->header.type_29) {
+			case POINTLESS_VECTOR_I8:
+				vi = pointless_complete_value_create_i32(((int8_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_U8:
+				vi = pointless_complete_value_create_u32(((uint8_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_I16:
+				vi = pointless_complete_value_create_i32(((int16_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_U16:
+				vi = pointless_complete_value_create_u32(((uint16_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_I32:
+				vi = pointless_complete_value_create_i32(((int32_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_U32:
+				vi = pointless_complete_value_create_u32(((uint32_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_I64:
+				vi = pointless_complete_value_create_i64(((int64_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_U64:
+				vi = pointless_complete_value_create_u64(((uint64_t*)items)[i]);
+				break;
+			case POINTLESS_VECTOR_FLOAT:
+				vi = pointless_complete_value_create_float(((float*)items)[i]);
+				break;
+			default:
+				assert(0);
+				break;
+		}
 	// everything else is simple
 	} else {
 		uint32_t j = pointless_dynarray_ITEM_AT(uint32_t, &cv_get_priv_vector(&_v)->vector, i);
-- 
2.43.0


From a6e74493c437eab6929a7ffcfbcc91c8f2728549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 05/85] fix: an empty vector used as key hashes and compares as
 empty, and not as the first vector of the image

---
 src/pointless_cmp.c  | 21 ++++++++++++++++-----
 src/pointless_hash.c |  6 +++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 4c498e6..d8b0c8b 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -404,13 +404,24 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 	return SIMPLE_CMP(n_items_a, n_items_b);
 }
 
-static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
+static uint32_t pointless_cmp_vector_n_items_create(pointless_create_t* c, pointless_complete_create_value_t* v)
 {
-	pointless_create_value_t _a = pointless_create_value_from_complete(a);
-	pointless_create_value_t _b = pointless_create_value_from_complete(b);
+	pointless_create_value_t _v = pointless_create_value_from_complete(v);
+
+	// empty vectors have no heap data
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY)
+		return 0;
 
-	uint32_t n_items_a = a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
-	uint32_t n_items_b = b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
+	if (v->header.is_outside_vector)
+		return cv_get_outside_vector(&_v)->n_items;
+
+	return pointless_dynarray_n_items(&cv_get_priv_vector(&_v)->vector);
+}
+
+static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
+{
+	uint32_t n_items_a = pointless_cmp_vector_n_items_create(c, a);
+	uint32_t n_items_b = pointless_cmp_vector_n_items_create(c, b);
 	uint32_t i, n_items = (n_items_a < n_items_b ? n_items_a : n_items_b);
 	int32_t cc;
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..66e0ce2 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -282,7 +282,11 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	void* items;
 	pointless_create_value_t* vv;
 
-	if (v->header.is_outside_vector) {
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY) {
+		// empty vectors have no heap data
+		items = 0;
+		n_items = 0;
+	} else if (v->header.is_outside_vector) {
 		items = cv_get_outside_vector(v)->items;
 		n_items = cv_get_outside_vector(v)->n_items;
 	} else {
-- 
2.43.0


From 46ac1a8f71bac6c441840df85b50a9af6bc9146f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 06/85] fix: 64-bit integers hash as the 32-bit integers they
 are equal to

---
 src/pointless_hash.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 66e0ce2..f7dca10 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -78,18 +78,12 @@ uint32_t pointless_hash_u32_32(uint32_t v)
 
 uint32_t pointless_hash_i64_32(int64_t v)
 {
-	union {
-		int64_t i;
-		uint64_t u;
-	} h;
-
-	h.i = v;
-	return (uint32_t)(h.u % UINT32_MAX);
+	return pointless_hash_u64_32((uint64_t)v);
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
-	return (uint32_t)(v % UINT32_MAX);
+	return (uint32_t)(v & UINT32_MAX);
 }
 
 uint32_t pointless_hash_bool_true_32()
-- 
2.43.0


From 6d48364260ba67d7f66ad53c738b82e5a72def41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 07/85] fix: acyclic comparison of vectors dereferenced a null
 error pointer

---
 src/pointless_cmp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index d8b0c8b..b09f324 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -595,7 +595,11 @@ int32_t pointless_cmp_reader(pointless_t* p_a, pointless_complete_value_t* a, po
 
 int32_t pointless_cmp_reader_acyclic(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b)
 {
-	return pointless_cmp_reader_rec(p_a, a, p_b, b, 0, 0);
+	const char* error = 0;
+	int32_t cc = pointless_cmp_reader_rec(p_a, a, p_b, b, 0, &error);
+
+	// there is no one to report errors to, but these values are not equal as far as we know
+	return (error != 0) ? -1 : cc;
 }
 
 int32_t pointless_cmp_create(pointless_create_t* c, uint32_t a, uint32_t b, const char** error)
-- 
2.43.0


From d890bfce35339f72f9f196a01b75a12eb0a3bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 08/85] fix: compare integers with floats exactly, without
 rounding the integer to single precision

---
 src/pointless_cmp.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index b09f324..f0ee516 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -157,6 +157,7 @@ static uint64_t pointless_int_value_unsigned(uint32_t t, pointless_complete_valu
 	return 0;
 }
 
+// NOTE: integers are compared to floats as long doubles, which represent all 64-bit integers exactly
 static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_data_t* v_a, uint32_t t_b, pointless_complete_value_data_t* v_b)
 {
 	// float, float
@@ -165,15 +166,15 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 	// float, int
 	} else if (t_a == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_b))
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_signed(t_b, v_b));
+			return SIMPLE_CMP(v_a->data_f, (long double)pointless_int_value_signed(t_b, v_b));
 		else
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_unsigned(t_b, v_b));
+			return SIMPLE_CMP(v_a->data_f, (long double)pointless_int_value_unsigned(t_b, v_b));
 	// int, float
 	} else if (t_b == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_a))
-			return SIMPLE_CMP((float)pointless_int_value_signed(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((long double)pointless_int_value_signed(t_a, v_a), v_b->data_f);
 		else
-			return SIMPLE_CMP((float)pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((long double)pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
 	// int, int
 	} else {
 		// ss
-- 
2.43.0


From 4c5e23e8ecab3e57f77125fc810842098aa3724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 09/85] fix: refuse NaN keys at creation, instead of writing an
 image that can not be opened

---
 src/pointless_hash_table.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..0341765 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -143,6 +143,17 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 	uint32_t value_hash, perturb, bucket, i, mask = n_buckets - 1;
 
 	for (j = 0; j < n_keys; j++) {
+		// a key which is not equal to itself (NaN) can never be found again
+		cmp = pointless_cmp_create(c, keys_vector[j], keys_vector[j], error);
+
+		if (*error)
+			return 0;
+
+		if (cmp != 0) {
+			*error = "there is a key in the set/map which is not equal to itself";
+			return 0;
+		}
+
 		// NOTE: basically same code as above
 		value_hash = hash_vector[j];
 		perturb = value_hash;
-- 
2.43.0


From 9bce0ac32f80943f47c045ac7691ecdb7deaced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 10/85] fix: cycle detection missed nodes: pre-order numbers
 were not unique, and the root of a component was not marked

---
 src/pointless_cycle_marker.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..80716b7 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -55,9 +55,12 @@ typedef struct {
 	Pvoid_t root_judy;
 
 	pointless_dynarray_t stack;
+
+	// number of containers visited so far
+	Word_t count;
 } pointless_cycle_marker_state_t;
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth);
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth);
 
 //static void print_depth(uint32_t depth)
 //{
@@ -66,7 +69,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 //		printf("   ");
 //}
 
-static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, Word_t count, uint32_t depth)
+static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, uint32_t depth)
 {
 	if (!(*state->cb_info->fn_is_container)(state->cb_info->user, w))
 		return;
@@ -80,7 +83,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 	if (PValue == 0) {
 		//print_depth(depth); printf(" w is not in visited, so visit(w = %u, count = %llu)\n", (unsigned int)w_id, (unsigned long long)count);
 
-		pointless_cycle_marker_visit(state, w, count, depth + 1);
+		pointless_cycle_marker_visit(state, w, depth + 1);
 
 		if (state->error)
 			return;
@@ -137,7 +140,7 @@ static void _unpack_map_and_vector(uint64_t v, uint32_t* owner, uint32_t* value)
 //	return buffer;
 //}
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth)
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth)
 {
 	assert((*state->cb_info->fn_is_container)(state->cb_info->user, v));
 
@@ -146,6 +149,9 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		return;
 	}
 
+	// pre-order number, unique for each container
+	Word_t count = state->count++;
+
 	if (count >= (Word_t)((*state->cb_info->fn_n_nodes)(state->cb_info->user))) {
 		//printf("B depth %u, count %u\n", depth, (unsigned int)count);
 		state->error = "internal error: pre-order count exceeds number of containers";
@@ -212,7 +218,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			}
 		}
 
-		process_child(state, v_id, child, count + 1, depth + 1);
+		process_child(state, v_id, child, depth + 1);
 
 		if (state->error)
 			return;
@@ -258,6 +264,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 
 			//printf("B marking %u\n", w_id);
 			bm_set_(state->cycle_marker, w_id);
+			bm_set_(state->cycle_marker, v_id);
 
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
@@ -288,6 +295,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	pointless_cycle_marker_state_t state;
 	state.cb_info = info;
 	state.error = 0;
+	state.count = 0;
 	state.cycle_marker = pointless_calloc(ICEIL(n_nodes, 8), 1);
 	state.visited_judy = 0;
 	state.component_judy = 0;
@@ -302,7 +310,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	root = (*info->fn_get_root)(state.cb_info->user);
 
 	if ((*info->fn_is_container)(state.cb_info->user, root))
-		pointless_cycle_marker_visit(&state, root, 0, 0);
+		pointless_cycle_marker_visit(&state, root, 0);
 
 	if (state.error)
 		goto error_cleanup;
-- 
2.43.0


From e56069eacbdf6c848318cd8627d9ecb6d60f7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 11/85] fix: hashability of a vector depends on all the items
 inside it, hashing a set/map inside a key called a null pointer

---
 include/pointless/pointless_defs.h  |  3 ++
 pointless_ext.h                     |  1 -
 python/pointless_pyobject_hash.c    |  2 +-
 python/pointless_vector.c           |  9 ++--
 src/pointless_create.c              |  2 +-
 src/pointless_hash.c                | 64 +++++++++++++++++++++++++++++
 src/pointless_reader.c              |  4 +-
 src/pointless_reader_helpers.c      |  8 ++++
 src/pointless_validate_hash_table.c |  2 +-
 9 files changed, 86 insertions(+), 9 deletions(-)

diff --git a/include/pointless/pointless_defs.h b/include/pointless/pointless_defs.h
index 8168f68..4f39354 100644
--- a/include/pointless/pointless_defs.h
+++ b/include/pointless/pointless_defs.h
@@ -379,6 +379,9 @@ void pointless_vector_hash_next_32(pointless_vector_hash_state_32_t* state, uint
 uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state);
 
 uint32_t pointless_is_hashable(uint32_t type);
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v);
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n);
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v);
 
 uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s);
 uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s);
diff --git a/pointless_ext.h b/pointless_ext.h
index 19b185e..aa96326 100644
--- a/pointless_ext.h
+++ b/pointless_ext.h
@@ -33,7 +33,6 @@ typedef struct {
 	PyPointless* pp;
 	pointless_value_t v;
 	unsigned long container_id;
-	int is_hashable;
 
 	// slice params, must be respected at all times
 	uint32_t slice_i;
diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index e5083d4..4fc95be 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -198,7 +198,7 @@ static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t*
 		p = &((PyPointlessVector*)py_object)->pp->p;
 		v = ((PyPointlessVector*)py_object)->v;
 
-		if (!pointless_is_hashable(v.type)) {
+		if (!pointless_is_hashable_reader_vector(p, &v, ((PyPointlessVector*)py_object)->slice_i, ((PyPointlessVector*)py_object)->slice_n)) {
 			*state->error = "pointless type is not hashable";
 			return 0;
 		}
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..18dcde3 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -31,7 +31,6 @@ static PyObject* PyPointlessVector_new(PyTypeObject* type, PyObject* args, PyObj
 	if (self) {
 		self->pp = 0;
 		self->container_id = 0;
-		self->is_hashable = 0;
 		self->slice_i = 0;
 		self->slice_n = 0;
 	}
@@ -689,14 +688,19 @@ static PyObject* PyPointlessVector_bisect_left(PyPointlessVector* self, PyObject
 	return PyLong_FromLongLong((PY_LONG_LONG)i);
 }
 
+static PyObject* PyPointlessVector_get_is_hashable(PyPointlessVector* self, void* closure)
+{
+	return PyLong_FromLong(self->pp != 0 && pointless_is_hashable_reader_vector(&self->pp->p, &self->v, self->slice_i, self->slice_n));
+}
+
 static PyGetSetDef PyPointlessVector_getsets [] = {
+	{"is_hashable", (getter)PyPointlessVector_get_is_hashable, 0, "1 iff the vector can be hashed"},
 	{"typecode", (getter)PyPointlessVector_get_typecode, 0, "the typecode character used to create the vector"},
 	{NULL}
 };
 
 static PyMemberDef PyPointlessVector_memberlist[] = {
 	{"container_id",  T_ULONG, offsetof(PyPointlessVector, container_id), READONLY},
-	{"is_hashable", T_INT, offsetof(PyPointlessVector, is_hashable), READONLY},
 	{NULL}
 };
 
@@ -819,7 +823,6 @@ PyPointlessVector* PyPointlessVector_New(
 
 	// the container ID is unique between all non-empty vectors, maps and sets
 	pv->container_id = (unsigned long)pointless_container_id(&pp->p, v);
-	pv->is_hashable = (int)pointless_is_hashable(v->type);
 
 	pv->slice_i = slice_i;
 	pv->slice_n = slice_n;
diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..08aeef8 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -114,7 +114,7 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 
 	// compute all the key hashes
 	for (i = 0; i < n_keys; i++) {
-		if (!pointless_is_hashable(cv_value_type(keys_vector_ptr[i]))) {
+		if (!pointless_is_hashable_create(c, cv_value_at(keys_vector_ptr[i]))) {
 			*error = "pointless_hash_table_create(): internal error: key not hashable";
 			goto cleanup;
 		}
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index f7dca10..28b11a0 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -467,6 +467,70 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
+static uint32_t pointless_is_hashable_reader_priv(pointless_t* p, pointless_value_t* v, uint32_t depth)
+{
+	if (depth >= POINTLESS_MAX_DEPTH || !pointless_is_hashable(v->type))
+		return 0;
+
+	// the type of a vector tells nothing about the items inside its items
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		uint32_t i, n_items = pointless_reader_vector_n_items(p, v);
+		pointless_value_t* items = pointless_reader_vector_value(p, v);
+
+		for (i = 0; i < n_items; i++) {
+			if (!pointless_is_hashable_reader_priv(p, &items[i], depth + 1))
+				return 0;
+		}
+	}
+
+	return 1;
+}
+
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
+{
+	return pointless_is_hashable_reader_priv(p, v, 0);
+}
+
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
+{
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		uint32_t j;
+		pointless_value_t* items = pointless_reader_vector_value(p, v);
+
+		for (j = i; j < i + n; j++) {
+			if (!pointless_is_hashable_reader_priv(p, &items[j], 1))
+				return 0;
+		}
+
+		return 1;
+	}
+
+	return pointless_is_hashable(v->type);
+}
+
+static uint32_t pointless_is_hashable_create_priv(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
+{
+	if (depth >= POINTLESS_MAX_DEPTH || !pointless_is_hashable(v->header.type_29))
+		return 0;
+
+	if (v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		pointless_dynarray_t* vector = &cv_get_priv_vector(v)->vector;
+		size_t i, n_items = pointless_dynarray_n_items(vector);
+
+		for (i = 0; i < n_items; i++) {
+			if (!pointless_is_hashable_create_priv(c, cv_value_at(pointless_dynarray_ITEM_AT(uint32_t, vector, i)), depth + 1))
+				return 0;
+		}
+	}
+
+	return 1;
+}
+
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
+{
+	return pointless_is_hashable_create_priv(c, v, 0);
+}
+
 uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..3960fe0 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -419,7 +419,7 @@ uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointle
 void pointless_reader_set_lookup(pointless_t* p, pointless_value_t* s, pointless_value_t* k, pointless_value_t** kk, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
@@ -607,7 +607,7 @@ uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* s, ui
 void pointless_reader_map_lookup(pointless_t* p, pointless_value_t* m, pointless_value_t* k, pointless_value_t** kk, pointless_value_t** vv, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index f70553b..4b23b02 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -411,6 +411,10 @@ int pointless_has_same_keys_map_map(pointless_t* p, pointless_value_t* m_a, poin
 
 int pointless_is_in_set_acyclic(pointless_t* p, pointless_value_t* s, pointless_value_t* k)
 {
+	// a value which can not be hashed is not a key
+	if (!pointless_is_hashable_reader(p, k))
+		return 0;
+
 	// get hash (guaranteed possible since value is acyclic)
 	uint32_t hash = pointless_hash_reader_32(p, k);
 
@@ -435,6 +439,10 @@ int pointless_is_in_set_acyclic(pointless_t* p, pointless_value_t* s, pointless_
 
 int pointless_is_in_map_acyclic(pointless_t* p, pointless_value_t* m, pointless_value_t* k)
 {
+	// a value which can not be hashed is not a key
+	if (!pointless_is_hashable_reader(p, k))
+		return 0;
+
 	// get hash (guaranteed possible since value is acyclic)
 	uint32_t hash = pointless_hash_reader_32(p, k);
 
diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index 9b3c5b6..286ff81 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -36,7 +36,7 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	// make sure hashes match the given object
 	for (i = 0; i < n_buckets; i++) {
 		// make sure it is hashable
-		if (!pointless_is_hashable(key_vector[i].type)) {
+		if (!pointless_is_hashable_reader(p, &key_vector[i])) {
 			*error = "key in set/map is not hashable";
 			return 0;
 		}
-- 
2.43.0


From 72d2943185d3516e78c6b095e5d4ad473e922ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 12/85] fix: running out of memory while vectors are renumbered
 freed the wrong vectors

---
 src/pointless_create.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 08aeef8..8033792 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -728,6 +728,22 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 	// ignore those
 	n_priv_vectors = 0, n_outside_vectors = 0, n_sets = 0, n_maps = 0;
 
+	// private vectors are moved before any of them is renumbered, since values and vectors must
+	// agree on the numbers if we run out of memory
+	for (i = 0; i < n_values; i++) {
+		if (!pointless_is_vector_type(cv_value_type(i)) || cv_value_type(i) == POINTLESS_VECTOR_EMPTY || cv_is_outside_vector(i))
+			continue;
+
+		// the ones which will be emptied, below
+		if (pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector) == 0 && cv_is_set_map_vector(i) == 0)
+			continue;
+
+		if (!pointless_dynarray_push(&new_priv_vector_values, cv_priv_vector_at(i))) {
+			*error = "out of memory I";
+			goto error_cleanup;
+		}
+	}
+
 	for (i = 0; i < n_values; i++) {
 		switch (cv_value_type(i)) {
 			case POINTLESS_VECTOR_I8:
@@ -750,11 +766,6 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_EMPTY;
 					cv_value_at(i)->data.data_u32 = 0;
 				} else {
-					if (!pointless_dynarray_push(&new_priv_vector_values, cv_priv_vector_at(i))) {
-						*error = "out of memory I";
-						goto error_cleanup;
-					}
-
 					cv_value_at(i)->data.data_u32 = n_priv_vectors++;
 				}
 
-- 
2.43.0


From ac7ef1b2672dfe3ee1f88d619c4d3660ee147ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 13/85] fix: creation state leaked when the version is not
 supported

---
 src/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 8033792..1bae067 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -690,11 +690,13 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		case POINTLESS_FF_VERSION_OFFSET_32_OLDHASH:
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 	}
 
-- 
2.43.0


From 7c79afa94a61b7718d2a822ece694b1f9f8f4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 14/85] fix: the name of the temporary file was used after
 being freed, so the file was left behind on failure

---
 src/pointless_create.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 1bae067..1dd51c7 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1334,9 +1334,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From 3fd7e25f869b34073a02c594a0c8c5cd9a5ee89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 15/85] fix: offsets were wrong after a vector of 4 GiB or more

---
 src/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 1dd51c7..d27e5d5 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -947,7 +947,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
+		uint64_t vector_heap_size = 0;
 		uint32_t n_items = pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector);
 
 		switch (cv_value_type(i)) {
@@ -1008,7 +1008,7 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		if (cv_value_type(i) == POINTLESS_VECTOR_EMPTY)
 			continue;
 
-		uint32_t vector_heap_size = 0;
+		uint64_t vector_heap_size = 0;
 		uint32_t n_items = cv_outside_vector_at(i)->n_items;
 
 		switch (cv_value_type(i)) {
-- 
2.43.0


From d12411770b7e2d285701a35c4442dd36cc82f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 16/85] fix: the number of buckets for a huge item count was
 never found, a small damaged image looped forever

---
 src/pointless_create.c     | 5 +++++
 src/pointless_hash_table.c | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index d27e5d5..f626ba6 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -75,6 +75,11 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 	// number of buckets
 	n_buckets = pointless_hash_compute_n_buckets(n_keys);
 
+	if (n_buckets == 0) {
+		*error = "there are too many keys in the set/map";
+		goto cleanup;
+	}
+
 	// allocate output vectors
 	hash_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
 	keys_serialize = (uint32_t*)pointless_malloc(sizeof(uint32_t) * n_buckets);
diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index 0341765..f77ccb9 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -17,7 +17,13 @@ uint32_t pointless_hash_compute_n_buckets(uint32_t n_items)
 	if (n_items == 1)
 		return 2;
 
-	return next_power_of_2(n_items + n_items / 2);
+	// this many buckets are not addressable with 32 bits
+	uint64_t n_buckets = (uint64_t)n_items + n_items / 2;
+
+	if (n_buckets > ((uint64_t)1 << 31))
+		return 0;
+
+	return next_power_of_2((uint32_t)n_buckets);
 }
 
 static uint32_t pointless_hash_table_probe_priv(pointless_t* p, uint32_t value_hash, pointless_value_t* value, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_eq_cb cb, void* user, const char** error)
-- 
2.43.0


From f42772166a9d951a93bb20df77f17ea78d686be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 17/85] fix: files with 32-bit offsets were read as if they had
 64-bit offsets

---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 3960fe0..0f2c21d 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From 9861a0336a7ee4ed94859afc96c06e726d29a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 18/85] fix: a cyclic vector was accepted as hashable if it was
 referred to as not hashable first

---
 src/pointless_validate.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index 5ad869b..09d1418 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -73,6 +73,15 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 	if (state->pass == 1 && !pointless_validate_heap_ref(state->context, v, &state->error))
 		return POINTLESS_WALK_STOP;
 
+	// pass-2, cycle validation, for each reference, since another one to the same vector can be of another type
+	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		// only hashable vector can not be in a cycle
+		if (bm_is_set_(state->cycle_marker, pointless_container_id(p, v))) {
+			state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
+			return POINTLESS_WALK_STOP;
+		}
+	}
+
 	// if we have validate this container already, stop iterating downwards, otherwise, mark it as visited
 	switch (v->type) {
 		case POINTLESS_VECTOR_VALUE:
@@ -106,17 +115,6 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 
 		if (!pointless_validate_heap_value(state->context, v, &state->error))
 			return POINTLESS_WALK_STOP;
-	// pass-2, cycle validation
-	} else if (state->pass == 2) {
-		// only hashable vector can not be in a cycle
-		if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
-			uint32_t container_id = pointless_container_id(p, v);
-
-			if (bm_is_set_(state->cycle_marker, container_id)) {
-				state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
-				return POINTLESS_WALK_STOP;
-			}
-		}
 	// pass-3, hash test
 	} else if (state->pass == 3) {
 		if (v->type == POINTLESS_MAP_VALUE_VALUE && !pointless_validate_map_complicated(state, v))
-- 
2.43.0


From 3af1264c2602ff24eb67e7bfa6b966a8c56598f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 19/85] fix: lookups of unicode keys hashed the first byte of
 the key only

---
 src/pointless_reader_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index 4b23b02..b271d10 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -290,13 +290,13 @@ int pointless_get_mapping_string_n_to_value(pointless_t* p, pointless_value_t* m
 
 int pointless_get_mapping_unicode_to_value(pointless_t* p, pointless_value_t* map, uint32_t* key, pointless_value_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, get_value, 0, (void*)value);
 }
 
 int pointless_get_mapping_unicode_to_u32(pointless_t* p, pointless_value_t* map, uint32_t* key, uint32_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, check_and_get_u32, 0, (void*)value);
 }
 
-- 
2.43.0


From 81e49157aff934fe1285f16fd3cd186197585546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 20/85] fix: intop_u32_mult() was declared, but defined with
 another name

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 90a77bd..2d1ffec 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -32,7 +32,7 @@ intop_u64_t intop_u64_mult(intop_u64_t a, intop_u64_t b)
 	return c;
 }
 
-intop_u32_t uintop_32_mult(intop_u32_t a, intop_u32_t b)
+intop_u32_t intop_u32_mult(intop_u32_t a, intop_u32_t b)
 {
 	intop_u32_t c;
 
-- 
2.43.0


From e9abcf584abfc740ad4772f791bcedb565bd851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 21/85] fix: operands of subtraction/division were swapped,
 operators were right-associative, and tokens past the end were read

---
 src/pointless_int_ops.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 2d1ffec..77f6dd4 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -200,7 +200,7 @@ static int intop_check_error(intop_eval_context_t* c)
 
 static int intop_eval_check_bounds(intop_eval_context_t* c)
 {
-	return (c->i < INTOP_EVAL_MAX_N);
+	return (c->i < c->n);
 }
 
 static void intop_eval_push(intop_eval_context_t* c, intop_eval_token_t* token)
@@ -234,9 +234,8 @@ static void intop_eval_Em(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_T(c);
-		intop_eval_Em(c);
-
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Em(c);
 	}
 }
 
@@ -260,9 +259,8 @@ static void intop_eval_Tm(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_F(c);
-		intop_eval_Tm(c);
-
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Tm(c);
 	}
 }
 
@@ -476,8 +474,8 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 				assert(c->e_n >= 2);
 				assert(c->eval[c->e_n - 1].type == INTOP_EVAL_NUMBER);
 				assert(c->eval[c->e_n - 2].type == INTOP_EVAL_NUMBER);
-				a = c->eval[c->e_n - 1].number;
-				b = c->eval[c->e_n - 2].number;
+				a = c->eval[c->e_n - 2].number;
+				b = c->eval[c->e_n - 1].number;
 				c->eval[c->e_n - 2].type = INTOP_EVAL_NUMBER;
 
 				if (c->stack[i].type == INTOP_EVAL_SUB) {
-- 
2.43.0


From b8c3eb425f1d3cf66ada2ca51669aac41143d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 22/85] fix: path expressions with a sign in front of a number
 never matched

---
 src/pointless_eval.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index d3406a5..c45a614 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -61,13 +61,12 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		// integer
 		case '-':
-			is_neg = 1;
-			break;
 		case '+':
+			is_neg = (*e == '-');
 			e += 1;
 			if (!('0' <= *e && *e  <= '9'))
 				return 0;
-			break;
+			// fall through
 		case '0':
 		case '1':
 		case '2':
-- 
2.43.0


From 706fc342713a3ee201d9c060fdd884976d4beb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 23/85] fix: path expressions truncated the items of 64-bit
 vectors

---
 src/pointless_eval.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index c45a614..f12d88e 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -162,6 +162,26 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		if (pointless_is_vector_type(root->type)) {
 			pointless_complete_value_t v = pointless_reader_vector_value_case(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i);
+
+			// a normal value has no space for 64-bit integers, only for the ones which fit in 32 bits
+			if (v.type == POINTLESS_I64) {
+				int64_t i = pointless_complete_value_get_as_i64(v.type, &v.complete_data);
+
+				if (INT32_MIN <= i && i <= INT32_MAX)
+					v = pointless_complete_value_create_as_read_i32((int32_t)i);
+				else if (0 <= i && i <= UINT32_MAX)
+					v = pointless_complete_value_create_as_read_u32((uint32_t)i);
+				else
+					return 0;
+			} else if (v.type == POINTLESS_U64) {
+				uint64_t u = pointless_complete_value_get_as_u64(v.type, &v.complete_data);
+
+				if (u > UINT32_MAX)
+					return 0;
+
+				v = pointless_complete_value_create_as_read_u32((uint32_t)u);
+			}
+
 			*root = pointless_value_from_complete(&v);
 		} else {
 			if (pointless_reader_bitvector_is_set(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i))
-- 
2.43.0


From 738e873ba68edd9bf21dfdd4e8b540d9c3d61169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 24/85] fix: an error of the comparison function was lost if it
 did not report greater as well

---
 src/custom_sort.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index da54f81..f9bbbe1 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -40,6 +40,9 @@ loop:
 
 				(*swap)(pl, pl - 1, user);
 			}
+
+			if (is_error)
+				return 0;
 		}
 
 		return 1;
@@ -55,6 +58,9 @@ loop:
 			presorted = 0;
 			break;
 		}
+
+		if (is_error)
+			return 0;
 	}
 
 	if (presorted)
-- 
2.43.0


From 32c30dcd430ab26d8ff4aa1b0453093638425df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 25/85] fix: strings with characters above U+FFFF were
 truncated to 8 bits per character

---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..f21540c 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From 76d081b02ece298041a216179f9baf7192060d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 26/85] fix: serializing a slice of an opened value vector
 wrote the whole vector

---
 include/pointless/pointless_recreate.h |  1 +
 python/pointless_create.c              |  2 +-
 src/pointless_recreate.c               | 47 ++++++++++++++++++++++++--
 3 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/include/pointless/pointless_recreate.h b/include/pointless/pointless_recreate.h
index 53a3c59..3be9fc7 100644
--- a/include/pointless/pointless_recreate.h
+++ b/include/pointless/pointless_recreate.h
@@ -7,6 +7,7 @@
 #include <pointless/pointless_create.h>
 
 uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error);
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error);
 
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error);
 
diff --git a/python/pointless_create.c b/python/pointless_create.c
index f21540c..bf8ff34 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -147,7 +147,7 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		switch(v->v.type) {
 			case POINTLESS_VECTOR_VALUE:
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
-				handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				handle = pointless_recreate_vector_slice(&v->pp->p, &v->v, v->slice_i, v->slice_n, &state->c, &error);
 
 				if (handle == POINTLESS_CREATE_VALUE_FAIL) {
 					state->is_error = 1;
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 977d0b9..cc6b634 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -289,7 +289,32 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	return POINTLESS_CREATE_VALUE_FAIL;
 }
 
-uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+static uint32_t pointless_recreate_convert_slice(pointless_recreate_state_t* state, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n)
+{
+	uint32_t i, child_handle, handle = pointless_create_vector_value(state->c);
+	pointless_value_t* child_v = pointless_reader_vector_value(state->p, v);
+
+	if (handle == POINTLESS_CREATE_VALUE_FAIL) {
+		*state->error = "pointless_create_vector_value() failure";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
+	for (i = 0; i < slice_n; i++) {
+		child_handle = pointless_recreate_convert_rec(state, &child_v[slice_i + i], 1);
+
+		if (child_handle == POINTLESS_CREATE_VALUE_FAIL)
+			return POINTLESS_CREATE_VALUE_FAIL;
+
+		if (pointless_create_vector_value_append(state->c, handle, child_handle) == POINTLESS_CREATE_VALUE_FAIL) {
+			*state->error = "pointless_create_vector_value_append() failure";
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+	}
+
+	return handle;
+}
+
+static uint32_t pointless_recreate_value_or_slice(pointless_t* p_in, pointless_value_t* v_in, int is_slice, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
 {
 	pointless_recreate_state_t state;
 	uint32_t handle = POINTLESS_CREATE_VALUE_FAIL;
@@ -316,7 +341,10 @@ uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, po
 		goto error;
 	}
 
-	handle = pointless_recreate_convert_rec(&state, v_in, 0);
+	if (is_slice)
+		handle = pointless_recreate_convert_slice(&state, v_in, slice_i, slice_n);
+	else
+		handle = pointless_recreate_convert_rec(&state, v_in, 0);
 
 error:
 
@@ -329,6 +357,21 @@ error:
 	return handle;
 }
 
+uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_or_slice(p_in, v_in, 0, 0, 0, c_out, error);
+}
+
+// as pointless_recreate_value(), but for a slice of a value vector
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
+{
+	// the whole vector, keep references to it from inside
+	if (slice_i == 0 && slice_n == pointless_reader_vector_n_items(p_in, v_in))
+		return pointless_recreate_value(p_in, v_in, c_out, error);
+
+	return pointless_recreate_value_or_slice(p_in, v_in, 1, slice_i, slice_n, c_out, error);
+}
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error)
 {
 	// open source
-- 
2.43.0


From d230165ff84844f9019ec4a7dab4aebdc40ec282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 27/85] fix: serialization leaked its state on errors, and the
 image when writing to a bytearray

---
 python/pointless_create.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index bf8ff34..4d897e9 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -529,6 +529,7 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 	state.normalize_bitvector = (normalize_bitvector == Py_True);
 
 	pointless_create_begin_64(&state.c);
+	create_end = 1;
 
 	pointless_export_py(&state, object);
 
@@ -594,6 +595,7 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	state.normalize_bitvector = (normalize_bitvector == Py_True);
 
 	pointless_create_begin_64(&state.c);
+	create_end = 1;
 
 	pointless_export_py(&state, object);
 
@@ -612,6 +614,9 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	else
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
 
+	if (buffer_type != 0)
+		pointless_free(buf);
+
 cleanup:
 
 	if (create_end)
-- 
2.43.0


From 5f888446a95cc6d9062fb273160c20e5b53de27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 28/85] fix: running out of memory inside the judy arrays
 crashed or terminated the process

---
 python/pointless_create.c    |  6 +++---
 src/pointless_create.c       |  6 +++---
 src/pointless_cycle_marker.c | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 4d897e9..95bd8b0 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -18,10 +18,10 @@ static uint32_t pointless_export_get_seen(pointless_export_state_t* state, PyObj
 
 static int pointless_export_set_seen(pointless_export_state_t* state, PyObject* py_object, uint32_t handle)
 {
-	PWord_t value = 0;
-	JLI(value, state->objects_used, (Word_t)py_object);
+	PWord_t value = (PWord_t)JudyLIns(&state->objects_used, (Word_t)py_object, 0);
 
-	if (value == 0)
+	// the JLI macro would terminate the process on failure
+	if (value == 0 || value == (PWord_t)PJERR)
 		return 0;
 
 	*value = (Word_t)handle;
diff --git a/src/pointless_create.c b/src/pointless_create.c
index f626ba6..6355413 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1600,7 +1600,7 @@ uint32_t pointless_create_unicode_ucs4(pointless_create_t* c, uint32_t* v)
 	// add to mapping
 	PValue = (Pvoid_t)JudyHSIns(&c->string_unicode_map_judy, unicode_buffer, buffer_len, 0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1680,7 +1680,7 @@ uint32_t pointless_create_string_ascii(pointless_create_t* c, uint8_t* v)
 	// add to mapping
 	PValue = JudyHSIns(&c->string_unicode_map_judy, string_buffer, buffer_len, PJE0);
 
-	if (PValue == 0)
+	if (PValue == 0 || PValue == PJERR)
 		goto cleanup;
 
 	*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
@@ -1957,7 +1957,7 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	if (normalize) {
 		Pvoid_t PValue = (Pvoid_t)JudyHSIns(&c->bitvector_map_judy, buffer, buffer_len, 0);
 
-		if (PValue == 0)
+		if (PValue == 0 || PValue == PJERR)
 			goto cleanup;
 
 		*((Word_t*)PValue) = (Word_t)(pointless_dynarray_n_items(&c->values) - 1);
diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 80716b7..6ea5eb0 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -112,7 +112,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 			//print_depth(depth); printf("root[v] = min(%u, %u)\n", *(unsigned int*)root_v, *(unsigned int*)root_w);
 			PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
@@ -165,7 +165,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// root[v] = count
 	Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->root_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -176,7 +176,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 	// visited[v] = count
 	PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->visited_judy, (Word_t)v_id, 0);
 
-	if (PValue == 0) {
+	if (PValue == 0 || PValue == (Word_t*)PJERR) {
 		state->error = "out of memory";
 		return;
 	}
@@ -239,7 +239,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		// component[v] = root[v]
 		Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)v_id, 0);
 
-		if (PValue == 0) {
+		if (PValue == 0 || PValue == (Word_t*)PJERR) {
 			state->error = "out of memory";
 			return;
 		}
@@ -269,7 +269,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
-			if (PValue == 0) {
+			if (PValue == 0 || PValue == (Word_t*)PJERR) {
 				state->error = "out of memory";
 				return;
 			}
-- 
2.43.0


From 91b94a201865a9ceb463ebb31c3f66ddf630c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 29/85] fix: serialization went on to the value of a map entry
 with an exception set

---
 python/pointless_create.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 95bd8b0..083becf 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -344,9 +344,13 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		while (PyDict_Next(py_object, &pos, &key, &value)) {
 			uint32_t key_handle = pointless_export_py_rec(state, key, depth + 1);
+
+			if (key_handle == POINTLESS_CREATE_VALUE_FAIL)
+				break;
+
 			uint32_t value_handle = pointless_export_py_rec(state, value, depth + 1);
 
-			if (key_handle == POINTLESS_CREATE_VALUE_FAIL || value_handle == POINTLESS_CREATE_VALUE_FAIL)
+			if (value_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
 			if (pointless_create_map_add(&state->c, handle, key_handle, value_handle) == POINTLESS_CREATE_VALUE_FAIL) {
-- 
2.43.0


From dbc447f686fe1165ab99d9eed9cc9dc4901b7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 30/85] fix: serialization leaked a reference to each item of a
 set, and trusted __iter__ of subclasses of set

---
 python/pointless_create.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 083becf..699d700 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -367,7 +367,8 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 	// set object
 	} else if (PySet_Check(py_object) || PyFrozenSet_Check(py_object)) {
-		PyObject* iterator = PyObject_GetIter(py_object);
+		// the items of the set itself, a subclass can not hand us temporary objects
+		PyObject* iterator = PyFrozenSet_Check(py_object) ? PyFrozenSet_Type.tp_iter(py_object) : PySet_Type.tp_iter(py_object);
 		PyObject* item = 0;
 
 		if (iterator == 0) {
@@ -378,10 +379,10 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		// get a handle
 		handle = pointless_create_set(&state->c);
-		RETURN_OOM_IF_FAIL(handle, state);
 
 		// cache object
-		if (!pointless_export_set_seen(state, py_object, handle)) {
+		if (handle == POINTLESS_CREATE_VALUE_FAIL || !pointless_export_set_seen(state, py_object, handle)) {
+			Py_DECREF(iterator);
 			RETURN_OOM(state);
 		}
 
@@ -389,6 +390,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
 
+			// the set keeps it alive
+			Py_DECREF(item);
+
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
 
-- 
2.43.0


From 9ae4593dfd167b657026376500af744818e49c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 31/85] fix: errors of string hashing were not reported

---
 python/pointless_pyobject_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index 4fc95be..0632c8d 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -90,7 +90,7 @@ static uint32_t pyobject_hash_primvector_32(PyPointlessPrimVector* v, pyobject_h
 static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_state_t* state)
 {
 	if (PyUnicode_READY(py_object) != 0) {
-		state->error = "PyUnicode_READY failed";
+		*state->error = "PyUnicode_READY failed";
 		PyErr_Clear();
 		return 0;
 
@@ -113,7 +113,7 @@ static uint32_t pyobject_hash_unicode_32(PyObject* py_object, pyobject_hash_stat
 					break;
 				// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 				default:
-					state->error = "hash statement fallthrough";
+					*state->error = "hash statement fallthrough";
 					break;
 			}
 	}
-- 
2.43.0


From 78acb3011a6e116a94d1acb53a0515eb2a3e6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 32/85] fix: comparison of integers ran Python code of
 subclasses, and leaked a reference if it raised

---
 python/pointless_pyobject_cmp.c | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..a5050e3 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -79,30 +79,11 @@ static void pypointless_cmp_value_init_python(pypointless_cmp_value_t* v, PyObje
 
 static int32_t pypointless_is_pylong_negative(PyObject* py_object, pypointless_cmp_state_t* state)
 {
-	PyObject* i = PyLong_FromLong(0);
+	// the sign of the integer itself, comparison operators of a subclass must not run in the middle of this
+	int overflow = 0;
+	PY_LONG_LONG i = PyLong_AsLongLongAndOverflow(py_object, &overflow);
 
-	int32_t retval = 0;
-
-	if (i == 0) {
-		PyErr_Clear();
-		state->error = "out of memory";
-		return retval;
-	}
-
-	int c = PyObject_RichCompareBool(py_object, i, Py_LT);
-
-	if (c == -1) {
-		PyErr_Clear();
-		state->error = "integer rich-compare error";
-		return retval;
-	}
-
-	if (c == 1)
-		retval = 1;
-
-	Py_DECREF(i);
-
-	return retval;
+	return (overflow < 0 || (overflow == 0 && i < 0));
 }
 
 // most basic cmp function
-- 
2.43.0


From f165a6db042bb82b7561cf39046ce7f2c903b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 33/85] fix: items of 64-bit vectors could not be compared with
 Python objects

---
 python/pointless_pyobject_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index a5050e3..3ca9e0a 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -107,6 +107,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
-- 
2.43.0


From 3bcf9de1d948002e495b827ec0aeb17933636939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 34/85] fix: a lookup raised an error if it met a key of
 another kind with the same hash

---
 python/pointless_pyobject_cmp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 3ca9e0a..3777bae 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -21,6 +21,7 @@ typedef struct {
 	pointless_t* pointless;
 	const char* error;
 	uint32_t depth;
+	int32_t only_eq; // true iff: we only care if the values are equal, values which have no order are just different
 } pypointless_cmp_state_t;
 
 // number values
@@ -544,7 +545,10 @@ static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_v
 	// we're going one deep
 	state->depth += 1;
 
-	if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
+	if (state->only_eq && state->error == 0 && cmp_a != cmp_b) {
+		state->depth -= 1;
+		return 1;
+	} else if (cmp_a == 0 || cmp_b == 0 || cmp_a != cmp_b) {
 		state->error = "comparison not supported between these types";
 		state->depth -= 1;
 		return 0;
@@ -570,6 +574,7 @@ uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObj
 
 	state.error = 0;
 	state.depth = 0;
+	state.only_eq = 1;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -606,6 +611,7 @@ PyObject* pointless_cmp(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.only_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -642,6 +648,7 @@ PyObject* pointless_is_eq(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.only_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
-- 
2.43.0


From 7928c082b26ccabd0360228463c8f94e17b0f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 35/85] fix: opened containers inside Python lists and tuples
 could not be compared

---
 python/pointless_pyobject_cmp.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 3777bae..89bb204 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -439,14 +439,12 @@ static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_va
 		}
 	// PyObject
 	} else {
-		r.is_pointless = 0;
-
 		assert(PyList_Check(v->value.py_object) || PyTuple_Check(v->value.py_object));
 
 		if (PyList_Check(v->value.py_object))
-			r.value.py_object = PyList_GET_ITEM(v->value.py_object, i);
+			pypointless_cmp_value_init_python(&r, PyList_GET_ITEM(v->value.py_object, i));
 		else
-			r.value.py_object = PyTuple_GET_ITEM(v->value.py_object, i);
+			pypointless_cmp_value_init_python(&r, PyTuple_GET_ITEM(v->value.py_object, i));
 	}
 
 	return r;
-- 
2.43.0


From 04135cac2bfe1b4dbc8e57c23167c9de9d117347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 36/85] fix: membership test of an integer of more than 64 bits
 in a vector raised an error

---
 python/pointless_pyobject_cmp.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 89bb204..c715c73 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -29,6 +29,7 @@ typedef struct {
 	int32_t is_signed;
 	int32_t is_unsigned;
 	int32_t is_float;
+	int32_t is_too_big;
 	uint64_t uu;
 	int64_t ii;
 	float ff;
@@ -293,6 +294,8 @@ static pypointless_cmp_int_float_bool_t pypointless_cmp_int_float_bool_from_valu
 	r.is_signed = 0;
 	r.is_unsigned = 0;
 	r.is_float = 0;
+	r.is_too_big = 0;
+	r.uu = 0;
 	r.ii = 0;
 	r.ff = 0.0f;
 
@@ -334,7 +337,7 @@ static pypointless_cmp_int_float_bool_t pypointless_cmp_int_float_bool_from_valu
 
 			if (PyErr_Occurred() || vv > UINT64_MAX) {
 				PyErr_Clear();
-				state->error = "python long too big for comparison";
+				r.is_too_big = 1;
 				return r;
 			}
 
@@ -394,6 +397,15 @@ static int32_t pypointless_cmp_int_float_bool(pypointless_cmp_value_t* a, pypoin
 	if (state->error)
 		return 0;
 
+	if (v_a.is_too_big || v_b.is_too_big) {
+		// not equal to anything we can store
+		if (state->only_eq)
+			return 1;
+
+		state->error = "python long too big for comparison";
+		return 0;
+	}
+
 	return pypointless_cmp_int_float_bool_priv(&v_a, &v_b);
 }
 
-- 
2.43.0


From eb05626471afd05ba8b93b183410b3eef02bb1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 37/85] fix: a primitive vector could be hashed, but not looked
 up or compared

---
 python/pointless_pyobject_cmp.c | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index c715c73..cfbc104 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -194,6 +194,11 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 			return pypointless_cmp_bitvector;
 		}
 
+		if (PyPointlessPrimVector_Check(py_object)) {
+			*type = POINTLESS_VECTOR_VALUE;
+			return pypointless_cmp_vector;
+		}
+
 		// no known type
 		state->error = "comparison not supported for Python type";
 		*type = UINT32_MAX;
@@ -421,6 +426,10 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 		return a->value.pointless.vector_slice_n;
 	}
 
+	if (PyPointlessPrimVector_Check(a->value.py_object)) {
+		return (uint32_t)pointless_dynarray_n_items(&((PyPointlessPrimVector*)a->value.py_object)->array);
+	}
+
 	assert(PyList_Check(a->value.py_object) || PyTuple_Check(a->value.py_object));
 
 	if (PyList_Check(a->value.py_object)) {
@@ -430,6 +439,26 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 	return (uint32_t)PyTuple_GET_SIZE(a->value.py_object);
 }
 
+static pointless_complete_value_t pypointless_cmp_prim_vector_item_at(PyPointlessPrimVector* v, uint32_t i)
+{
+	void* item = pointless_dynarray_item_at(&v->array, i);
+
+	switch (v->type) {
+		case POINTLESS_PRIM_VECTOR_TYPE_I8:    return pointless_complete_value_create_as_read_i64(*((int8_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U8:    return pointless_complete_value_create_as_read_u64(*((uint8_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I16:   return pointless_complete_value_create_as_read_i64(*((int16_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U16:   return pointless_complete_value_create_as_read_u64(*((uint16_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I32:   return pointless_complete_value_create_as_read_i64(*((int32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U32:   return pointless_complete_value_create_as_read_u64(*((uint32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I64:   return pointless_complete_value_create_as_read_i64(*((int64_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U64:   return pointless_complete_value_create_as_read_u64(*((uint64_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_FLOAT: return pointless_complete_value_create_as_read_float(*((float*)item));
+	}
+
+	assert(0);
+	return pointless_complete_value_create_as_read_null();
+}
+
 static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_value_t* v, uint32_t i)
 {
 	// our return value
@@ -449,6 +478,13 @@ static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_va
 			r.value.pointless.vector_slice_i = 0;
 			r.value.pointless.vector_slice_n = pointless_reader_vector_n_items(v->value.pointless.p, &_v);
 		}
+	// primitive vector
+	} else if (PyPointlessPrimVector_Check(v->value.py_object)) {
+		r.is_pointless = 1;
+		r.value.pointless.p = 0;
+		r.value.pointless.v = pypointless_cmp_prim_vector_item_at((PyPointlessPrimVector*)v->value.py_object, i);
+		r.value.pointless.vector_slice_i = 0;
+		r.value.pointless.vector_slice_n = 0;
 	// PyObject
 	} else {
 		assert(PyList_Check(v->value.py_object) || PyTuple_Check(v->value.py_object));
-- 
2.43.0


From ded8a98c4b50274344c00c32df62d04bcbb15a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 38/85] fix: min/max/range of an opened vector reported its
 first item

---
 python/pointless_vector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index 18dcde3..f22de95 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -531,7 +531,7 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 		return 0;
 	}
 
-	size_t i, min_i, max_i, n_items = self->slice_n;
+	size_t i, min_i = 0, max_i = 0, n_items = self->slice_n;
 	void* base_ptr = pointless_prim_vector_base_ptr(self);
 
 	if (n_items == 0) {
@@ -572,6 +572,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From fca8905b8c96b3796032bf4d5f993d93b78d3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 39/85] fix: the buffer of an opened vector was writable,
 writing to it crashed or modified the image

---
 python/pointless_vector.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index f22de95..afc272f 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -497,8 +497,15 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 	if (view == 0)
 		return 0;
 
+	if (!pointless_is_prim_vector(&self->v)) {
+		PyErr_SetString(PyExc_BufferError, "only primitive vectors support the buffer interface");
+		view->obj = 0;
+		return -1;
+	}
+
+	// the image is read-only
 	void* ptr = pointless_prim_vector_base_ptr(self);
-	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
+	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
 
 static void PyPointlessVector_releasebuffer(PyPointlessVector* obj, Py_buffer *view)
-- 
2.43.0


From 0d75843edadd094bd65bbaa12d3ad83fb4070fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 40/85] fix: containers created without an image crashed when
 used

---
 python/pointless_map.c    | 10 ++--------
 python/pointless_set.c    | 10 ++--------
 python/pointless_vector.c | 12 ++----------
 3 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/python/pointless_map.c b/python/pointless_map.c
index 88b6e85..2ad6f47 100644
--- a/python/pointless_map.c
+++ b/python/pointless_map.c
@@ -38,14 +38,8 @@ static void PyPointlessMapItemIter_dealloc(PyPointlessMapItemIter* self)
 
 PyObject* PyPointlessMap_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
-	PyPointlessMap* self = (PyPointlessMap*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
+	PyErr_SetString(PyExc_TypeError, "unable to instantiate PyPointlessMap directly");
+	return 0;
 }
 
 PyObject* PyPointlessMapKeyIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
diff --git a/python/pointless_set.c b/python/pointless_set.c
index ed590db..96f9af2 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -22,14 +22,8 @@ static void PyPointlessSetIter_dealloc(PyPointlessSetIter* self)
 
 PyObject* PyPointlessSet_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
-	PyPointlessSet* self = (PyPointlessSet*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
+	PyErr_SetString(PyExc_TypeError, "unable to instantiate PyPointlessSet directly");
+	return 0;
 }
 
 PyObject* PyPointlessSetIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index afc272f..fc0746e 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -26,16 +26,8 @@ static void PyPointlessVectorRevIter_dealloc(PyPointlessVectorRevIter* self)
 
 static PyObject* PyPointlessVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
-	PyPointlessVector* self = (PyPointlessVector*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-		self->slice_i = 0;
-		self->slice_n = 0;
-	}
-
-	return (PyObject*)self;
+	PyErr_SetString(PyExc_TypeError, "unable to instantiate PyPointlessVector directly");
+	return 0;
 }
 
 
-- 
2.43.0


From 4cce0a83ab4081c0475a5e84d9583bddf626af7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 41/85] fix: a Pointless object which is not open, or opened
 again while in use, crashed

---
 python/pointless_object.c | 50 ++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 3e64719..b672639 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -51,13 +51,27 @@ static PyObject* PyPointless_new(PyTypeObject* type, PyObject* args, PyObject* k
 	return (PyObject*)self;
 }
 
+static int PyPointless_check_open(PyPointless* self)
+{
+	if (!self->is_open)
+		PyErr_SetString(PyExc_ValueError, "pointless object is not open");
+
+	return self->is_open;
+}
+
 static PyObject* PyPointless_GetRoot(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	return pypointless_value(self, &self->p.header->root);
 }
 
 static PyObject* PyPointless_GetINode(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -79,6 +93,9 @@ static PyObject* PyPointless_GetINode(PyPointless* self)
 
 static PyObject* PyPointless_GetFileNo(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -107,6 +124,9 @@ static PyObject* PyPointless_GetRefs(PyPointless* self)
 
 static PyObject* PyPointless_sizeof(PyPointless* self)
 {
+	if (!self->is_open)
+		return PyLong_FromSize_t(sizeof(PyPointless));
+
 	if (self->p.fd == 0)
 		return PyLong_FromUnsignedLongLong(sizeof(PyPointless) + self->p.buflen);
 	else
@@ -133,32 +153,24 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	const char* error = 0;
 	int i = 0;
 
-	if (self->is_open) {
-		Py_BEGIN_ALLOW_THREADS
-		pointless_close(&self->p);
-		Py_END_ALLOW_THREADS
-		self->is_open = 0;
-	}
-
-	self->allow_print = 1;
-
+	// everything obtained from the old image would be left dangling
 	if (self->n_root_refs != 0 ||
 		self->n_vector_refs != 0 ||
 		self->n_bitvector_refs != 0 ||
 		self->n_map_refs != 0 ||
 		self->n_set_refs != 0) {
-		printf("_WTF A: %zu\n", self->n_root_refs);
-		printf("_WTF B: %zu\n", self->n_vector_refs);
-		printf("_WTF C: %zu\n", self->n_bitvector_refs);
-		printf("_WTF D: %zu\n", self->n_map_refs);
-		printf("_WTF E: %zu\n", self->n_set_refs);
+		PyErr_SetString(PyExc_ValueError, "pointless object is in use");
+		return -1;
 	}
 
-	self->n_root_refs = 0;
-	self->n_vector_refs = 0;
-	self->n_bitvector_refs = 0;
-	self->n_map_refs = 0;
-	self->n_set_refs = 0;
+	if (self->is_open) {
+		self->is_open = 0;
+		Py_BEGIN_ALLOW_THREADS
+		pointless_close(&self->p);
+		Py_END_ALLOW_THREADS
+	}
+
+	self->allow_print = 1;
 
 	PyObject* allow_print = Py_True;
 	PyObject* validate = Py_True;
-- 
2.43.0


From e3eb8655f3a6e81c7168821f19410775bfd0a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 42/85] fix: files with non-ASCII names could be written, but
 not opened

---
 python/pointless_object.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index b672639..743a8f4 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -185,13 +185,20 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	int do_validate = (validate == Py_True);
 
 	if (PyUnicode_Check(fname_or_buffer)) {
-		string_of_unicode = PyUnicode_AsLatin1String(fname_or_buffer);
+		// same encoding as when writing
+		string_of_unicode = PyUnicode_AsUTF8String(fname_or_buffer);
 
 		if (string_of_unicode == 0)
 			return -1;
 
 		fname_ = PyBytes_AS_STRING(string_of_unicode);
 
+		if (strlen(fname_) != (size_t)PyBytes_GET_SIZE(string_of_unicode)) {
+			PyErr_SetString(PyExc_ValueError, "embedded null character");
+			Py_DECREF(string_of_unicode);
+			return -1;
+		}
+
 	} else if (PyPointlessPrimVector_Check(fname_or_buffer)) {
 		vector = (PyPointlessPrimVector*)fname_or_buffer;
 
-- 
2.43.0


From 0c7d5812e2cd080a06e7c163e60f934b2938f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 43/85] fix: the input buffer could be resized by another
 thread while it was being opened

---
 python/pointless_object.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 743a8f4..ffb7072 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -149,6 +149,7 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	PyPointlessPrimVector* vector = 0;
 	void* buf = 0;
 	size_t buflen = 0;
+	Py_buffer view;
 	const char* fname_ = 0;
 	const char* error = 0;
 	int i = 0;
@@ -217,6 +218,10 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 		return -1;
 	}
 
+	// the buffer must not move while other threads run
+	if (!fname_ && PyObject_GetBuffer(fname_or_buffer, &view, PyBUF_SIMPLE) == -1)
+		return -1;
+
 	Py_BEGIN_ALLOW_THREADS
 
 	if (do_validate) {
@@ -233,6 +238,9 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	Py_END_ALLOW_THREADS
 
+	if (!fname_)
+		PyBuffer_Release(&view);
+
 	if (!i) {
 		if (fname_)
 			PyErr_Format(PyExc_IOError, "error opening [%s]: %s", fname_, error);
-- 
2.43.0


From 7156e421b10c01a2f7afa0e79fa3cde31076d00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 44/85] fix: deleting an item of a primitive vector crashed

---
 python/pointless_prim_vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..67a91bd 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -595,6 +595,11 @@ static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_
 		return -1;
 	}
 
+	if (v == 0) {
+		PyErr_SetString(PyExc_TypeError, "vector items can not be deleted");
+		return -1;
+	}
+
 	pypointless_number_t number;
 
 	if (!pypointless_parse_number(v, &number, self->type))
-- 
2.43.0


From ada8ea990217614a47448a442d0bf0919fdd6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 45/85] fix: assignment to a negative index of a primitive
 vector used the wrong length

---
 python/pointless_prim_vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 67a91bd..64fe786 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -618,7 +618,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From a5a1ef9468d947a6f3399887c623968fbc425fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 46/85] fix: appending a primitive vector to itself never ended

---
 python/pointless_prim_vector.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 64fe786..87b804b 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -769,9 +769,14 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
+			// the source may be this very vector
+			size_t n_items = pointless_dynarray_n_items(&p_obj->array);
+
+			for (i = 0; i < n_items; i++) {
+				pypointless_number_t number;
+				memcpy(&number, pointless_dynarray_item_at(&p_obj->array, i), p_obj->array.item_size);
+
+				if (!pointless_dynarray_push(&self->array, &number)) {
 					for (j = 0; j < n_append; j++)
 						pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From 53cedf8da9525a48391f2811e7ec51cb36b1675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 47/85] fix: failing append_bulk of a primitive vector leaked
 the item and could pop from an empty vector

---
 python/pointless_prim_vector.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 87b804b..b3bdfcd 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -872,19 +872,22 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		return 0;
 
 	while ((item = PyIter_Next(iterator)) != 0) {
-		if (!PyPointlessPrimVector_append_item(self, item))
+		PyObject* appended = PyPointlessPrimVector_append_item(self, item);
+		Py_DECREF(item);
+
+		if (appended == 0)
 			break;
 
+		Py_DECREF(appended);
 		n_append += 1;
-		Py_DECREF(item);
-		item = 0;
 	}
 
 	Py_DECREF(iterator);
 	iterator = 0;
 
 	if (PyErr_Occurred()) {
-		for (i = 0; i < n_append; i++)
+		// the iterator may have changed or exported the vector in the mean time
+		for (i = 0; i < n_append && self->ob_exports == 0 && pointless_dynarray_n_items(&self->array) > 0; i++)
 			pointless_dynarray_pop(&self->array);
 
 		return 0;
-- 
2.43.0


From e5097f8a7998b85b9b4ae419cb999eac3ae60a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 48/85] fix: pop_bulk ignored exported buffers and negative
 counts

---
 python/pointless_prim_vector.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index b3bdfcd..1ca5044 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -925,11 +925,19 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 	if (!PyArg_ParseTuple(args, "L", &n))
 		return 0;
 
-	if (n > 0 && (size_t)n > pointless_dynarray_n_items(&self->array)) {
+	if (n < 0) {
+		PyErr_SetString(PyExc_ValueError, "negative number of items");
+		return 0;
+	}
+
+	if ((size_t)n > pointless_dynarray_n_items(&self->array)) {
 		PyErr_SetString(PyExc_ValueError, "vector is not big enough");
 		return 0;
 	}
 
+	if (n > 0 && !PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	for (i = 0; i < n; i++)
 		pointless_dynarray_pop(&self->array);
 
-- 
2.43.0


From 5bc060dc76506a35b1992a00bf24632778c5f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 49/85] fix: remove from a primitive float vector could resize
 an exported buffer

---
 python/pointless_prim_vector.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 1ca5044..2965a65 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1133,6 +1133,10 @@ static PyObject* PyPointlessPrimVector_remove(PyPointlessPrimVector* self, PyObj
 	if (i == (SIZE_MAX-1))
 		return 0;
 
+	// parsing a float can run Python code
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	// shift array (needlessly expensive because of swap)
 	for (; i < pointless_dynarray_n_items(&self->array) - 1; i++)
 		pointless_dynarray_swap(&self->array, i, i + 1);
@@ -1154,6 +1158,10 @@ static PyObject* PyPointlessPrimVector_fast_remove(PyPointlessPrimVector* self,
 	if (i == (SIZE_MAX-1))
 		return 0;
 
+	// parsing a float can run Python code
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	// swap with last item and remove last item
 	pointless_dynarray_swap(&self->array, i, pointless_dynarray_n_items(&self->array) - 1);
 	pointless_dynarray_pop(&self->array);
-- 
2.43.0


From 6cab1e58c75ba8cb2032790349e652cc4ad49db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 50/85] fix: failing FromRemap leaked the partial vector

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 2965a65..3333d8a 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1857,17 +1857,20 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 		uint64_t index = 0;
 
 		if (PyPointlessPrimVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_prim((PyPointlessPrimVector*)v_, i, &index)) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
 			return 0;
 		}
 
 		if (PyPointlessVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_pointless((PyPointlessVector*)v_, i, &index)) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
 			return 0;
 		}
 
 		// check for bounds
 		if (index >= n_source) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector out of bounds");
 			return 0;
 		}
-- 
2.43.0


From 8a466c73147a2dd3f733e8d280efc5e472bc6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 51/85] fix: slices of primitive vectors had an uninitialized
 allow_print

---
 python/pointless_prim_vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 3333d8a..50991b0 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -2042,6 +2042,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 		return 0;
 
 	pv->ob_exports = 0;
+	pv->allow_print = self->allow_print;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
 
@@ -2218,6 +2219,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 	}
 
 	pv->ob_exports = 0;
+	pv->allow_print = 1;
 	pv->type = t;
 	pv->array = *v;
 
-- 
2.43.0


From 6ce8683522e6ea18b790b9873eff70bcb3ad236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 52/85] fix: min/max/range of a primitive vector returned the
 first item

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 50991b0..e87999e 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1947,6 +1947,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 80ab4bb82714041b1b6febcfaa8b65d24bff3d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 53/85] fix: failing or re-entrant primitive vector
 initialization leaked and left it inconsistent

---
 python/pointless_prim_vector.c | 57 +++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index e87999e..55e5421 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -308,20 +308,27 @@ static int PyPointlessPrimVector_can_resize(PyPointlessPrimVector* self)
 	return 1;
 }
 
+static PyObject* PyPointlessPrimVector_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
+{
+	PyPointlessPrimVector* self = (PyPointlessPrimVector*)type->tp_alloc(type, 0);
+
+	// a valid empty vector, even if it is never initialized
+	if (self) {
+		self->ob_exports = 0;
+		self->allow_print = 1;
+		self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
+		pointless_dynarray_init(&self->array, sizeof(int8_t));
+	}
+
+	return (PyObject*)self;
+}
+
 static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* args, PyObject* kwds)
 {
 	// if we have a buffer attached, we shouldn't be here
 	if (!PyPointlessPrimVector_can_resize(self))
 		return -1;
 
-	// printing enabled by default
-	self->allow_print = 1;
-	self->ob_exports = 0;
-
-	// clear previous contents
-	pointless_dynarray_clear(&self->array);
-	self->type = 0;
-
 	// parse input
 	const char* type = 0;
 	Py_buffer buffer;
@@ -339,6 +346,18 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "|ss*OO!", kwargs, &type, &buffer, &sequence_obj, &PyBool_Type, &allow_print))
 		return -1;
 
+	// parsing the arguments can run Python code, so check again
+	if (!PyPointlessPrimVector_can_resize(self))
+		goto cleanup;
+
+	// printing enabled by default
+	self->allow_print = 1;
+
+	// clear previous contents
+	pointless_dynarray_destroy(&self->array);
+	pointless_dynarray_init(&self->array, sizeof(int8_t));
+	self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
+
 	if ((type != 0) == (buffer.obj != 0)) {
 		PyErr_SetString(PyExc_TypeError, "exactly one of type/buffer must be specified");
 		goto cleanup;
@@ -377,20 +396,20 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			PyObject* item = 0;
 
 			while ((item = PyIter_Next(iterator)) != 0) {
-				if (!PyPointlessPrimVector_append_item(self, item))
+				PyObject* appended = PyPointlessPrimVector_append_item(self, item);
+				Py_DECREF(item);
+
+				if (appended == 0)
 					break;
 
-				Py_DECREF(item);
-				item = 0;
+				Py_DECREF(appended);
 			}
 
 			Py_DECREF(iterator);
 			iterator = 0;
 
-			if (PyErr_Occurred()) {
-				pointless_dynarray_destroy(&self->array);
+			if (PyErr_Occurred())
 				goto cleanup;
-			}
 		}
 
 		retval = 0;
@@ -402,14 +421,15 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			goto cleanup;
 		}
 
-		self->type = ((uint32_t*)buffer.buf)[0];
+		uint32_t buffer_type = ((uint32_t*)buffer.buf)[0];
 		uint32_t buffer_n_items = ((uint32_t*)buffer.buf)[1];
 		uint64_t expected_buffer_size = 0;
 
 		for (i = 0; i < POINTLESS_PRIM_VECTOR_N_TYPES; i++) {
-			if (pointless_prim_vector_type_map[i].type == self->type) {
+			if (pointless_prim_vector_type_map[i].type == buffer_type) {
 				expected_buffer_size += (uint64_t)pointless_prim_vector_type_map[i].typesize * (uint64_t)buffer_n_items;
 				pointless_dynarray_init(&self->array, pointless_prim_vector_type_map[i].typesize);
+				self->type = buffer_type;
 				break;
 			}
 		}
@@ -474,7 +494,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 
 cleanup:
 
-	if (retval == -1)
+	// leave a valid empty vector on errors, unless the iterator exported it
+	if (retval == -1 && self->ob_exports == 0)
 		pointless_dynarray_clear(&self->array);
 
 	if (buffer.obj)
@@ -2118,7 +2139,7 @@ PyTypeObject PyPointlessPrimVectorType = {
 	0,                                              /*tp_dictoffset */
 	(initproc)PyPointlessPrimVector_init,           /*tp_init */
 	PyType_GenericAlloc,                            /*tp_alloc */
-	PyType_GenericNew,                              /*tp_new */
+	PyPointlessPrimVector_new,                      /*tp_new */
 	PyObject_Del,                                   /* tp_free */
 };
 
-- 
2.43.0


From f87f296ad9110b5c6e25a53a5b26bf2c7e11fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 54/85] fix: deleting an item of a bitvector crashed

---
 python/pointless_bitvector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..966ef0d 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -258,6 +258,11 @@ static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObje
 		return -1;
 	}
 
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "bits can not be deleted");
+		return -1;
+	}
+
 	// get the index
 	Py_ssize_t i;
 
-- 
2.43.0


From 3db01b33ec1d84291253cdf4e6b7592133d90a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 55/85] fix: appending a bitvector to itself overflowed the
 heap, and appended bits were not counted

---
 python/pointless_bitvector.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 966ef0d..d95408a 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -648,14 +648,18 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 		return 0;
 	}
 
+	// the source may be this very bitvector
 	size_t n_before = self->primitive_n_bits;
+	size_t n_other = (size_t)PyPointlessBitvector_length(other);
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	if (!PyPointlessBitvector_extend_by(self, (uint32_t)n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+	for (size_t i = 0; i < n_other; i++) {
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
-- 
2.43.0


From dcf3a02a343b03a2cbf8524c04323bd025d153fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 56/85] fix: popped bits of a bitvector were still counted as
 set

---
 python/pointless_bitvector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index d95408a..5e44696 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -704,6 +704,8 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 	self->primitive_n_bits -= 1;
 
 	if (is_set) {
+		bm_reset_(self->primitive_bits, self->primitive_n_bits);
+		self->primitive_n_one -= 1;
 		Py_RETURN_TRUE;
 	} else {
 		Py_RETURN_FALSE;
-- 
2.43.0


From 63b5ee0fb5b60e024a4d61550b141f36c3cb7271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 57/85] fix: copies of bitvectors had an uninitialized
 allow_print

---
 python/pointless_bitvector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 5e44696..bfd9c41 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -758,6 +758,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	pv->primitive_n_bits = n_bits;
 	pv->primitive_bits = bits;
 	pv->primitive_n_one = 0;
+	pv->allow_print = self->is_pointless ? 1 : self->allow_print;
 
 	for (i = 0; i < n_bits; i++) {
 		if (bm_is_set_(bits, i))
@@ -959,6 +960,9 @@ PyPointlessBitvector* PyPointlessBitvector_New(PyPointless* pp, pointless_value_
 	pv->v = *v;
 	pv->primitive_n_bits = 0;
 	pv->primitive_bits = 0;
+	pv->primitive_n_bytes_alloc = 0;
+	pv->primitive_n_one = 0;
+	pv->allow_print = 1;
 
 	return pv;
 }
-- 
2.43.0


From ef48d4ecbe52ca5703165715fe05eff8966d51c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 58/85] fix: bitvector initialization leaked its iterator and
 items, and lost errors of the iterator

---
 python/pointless_bitvector.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index bfd9c41..1aa5783 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -145,20 +145,21 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 	if (sequence_iterator != 0) {
 		// for each object
 		PyObject* obj = 0;
-		size_t i = 0;
 
-		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
-			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
-				is_error = 1;
-			// 0) PyIter_Next() failure
-			} else if (obj == 0) {
+		while (!is_error) {
+			int is_true = 0;
+
+			obj = PyIter_Next(sequence_iterator);
+
+			// 0) end of sequence, or PyIter_Next() failure
+			if (obj == 0) {
+				if (!PyErr_Occurred())
+					break;
+
 				is_error = 1;
 			// 1) boolean
 			} else if (PyBool_Check(obj)) {
-				if (obj == Py_True) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
-				}
+				is_true = (obj == Py_True);
 			// 3) long (must be 0 or 1)
 			} else if (PyLong_Check(obj) || PyLong_CheckExact(obj)) {
 				PY_LONG_LONG v = PyLong_AsLongLong(obj);
@@ -166,16 +167,21 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 				if (PyErr_Occurred() || (v != 0 && v != 1)) {
 					PyErr_Clear();
 					is_error = 1;
-				} else if (v == 1) {
-					bm_set_(self->primitive_bits, i);
-					self->primitive_n_one += 1;
+				} else {
+					is_true = (v == 1);
 				}
 			// 4) nothong else allowed
 			} else {
 				is_error = 1;
 			}
 
+			Py_XDECREF(obj);
+
+			if (!is_error && !PyPointlessBitvector_extend_by(self, 1, is_true))
+				is_error = 1;
+
 			if (is_error) {
+				Py_DECREF(sequence_iterator);
 				pointless_free(self->primitive_bits);
 				self->primitive_n_bits = 0;
 				self->primitive_bits = 0;
@@ -187,9 +193,9 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 
 				return -1;
 			}
-
-			i += 1;
 		}
+
+		Py_DECREF(sequence_iterator);
 	}
 
 	return 0;
-- 
2.43.0


From 4d31607220c57c762cb435ff4c705988896f9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 59/85] fix: re-entrant bitvector initialization leaked

---
 python/pointless_bitvector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 1aa5783..b92f932 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -124,6 +124,9 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		n_items = 0;
 	}
 
+	// getting the iterator can run Python code
+	pointless_free(self->primitive_bits);
+	self->primitive_n_one = 0;
 	self->primitive_n_bits = (uint32_t)n_items;
 	self->primitive_bits = 0;
 	self->primitive_n_bytes_alloc = (uint32_t)ICEIL(n_items, 8);
-- 
2.43.0


From ec3b1eda23a84309f088a0bb69d80422425f8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 60/85] fix: images with characters outside of unicode were
 accepted, and gave invalid Python strings

---
 src/pointless_validate_heap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pointless_validate_heap.c b/src/pointless_validate_heap.c
index 4059f68..ced9c8b 100644
--- a/src/pointless_validate_heap.c
+++ b/src/pointless_validate_heap.c
@@ -118,6 +118,11 @@ static int32_t pointless_validate_unicode_heap(pointless_validate_context_t* con
 			*error = "premature end-of-unicode";
 			return 0;
 		}
+
+		if (s[i] > 0x10FFFF) {
+			*error = "illegal unicode character";
+			return 0;
+		}
 	}
 
 	if (s[i] != 0) {
-- 
2.43.0


From db4562aa130952cd76686961ef533cc2e53891cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 61/85] fix: vectors with integers of too wide a range were not
 hashable

A tuple such as (-1, 2**31) fits no typed vector, and fell back to type 0, a plain
value vector, which can not be a key (and hit an assertion in debug builds).
---
 src/pointless_create.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 6355413..fe1de00 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -681,9 +681,8 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	else if (INT32_MIN <= min_int && max_int <= INT32_MAX)
 		return POINTLESS_VECTOR_I32;
 
-	// we must have hit something here already
-	assert(0);
-	return 0;
+	// no integer type covers both negative values and those above INT32_MAX
+	return compression;
 }
 
 static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
-- 
2.43.0


From ddaa655b013fffc120700a345fb26786607692b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 62/85] fix: comparison of cyclic vectors went on after
 reaching the depth limit

---
 python/pointless_pyobject_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index cfbc104..da6c83c 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -512,7 +512,7 @@ static int32_t pypointless_cmp_vector(pypointless_cmp_value_t* a, pypointless_cm
 		v_b = pypointless_cmp_vector_item_at(b, i);
 		c = pypointless_cmp_rec(&v_a, &v_b, state);
 
-		if (c != 0)
+		if (c != 0 || state->error != 0)
 			return c;
 	}
 
-- 
2.43.0


From e886043ccea6bcf0f719bd7e973a6a4af533a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 63/85] fix: strings that differ after a NUL character compared
 equal

---
 python/pointless_pyobject_cmp.c | 48 +++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index da6c83c..b912555 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -213,6 +213,7 @@ typedef struct {
 		uint8_t* string_8;
 	} string;
 	uint8_t n_bits;
+	size_t n_chars;
 } _var_string_t;
 
 static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v, pypointless_cmp_state_t* state)
@@ -225,12 +226,15 @@ static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v,
 		if (v_.type == POINTLESS_UNICODE_) {
 			s.n_bits = 32;
 			s.string.string_32 = pointless_reader_unicode_value_ucs4(v->value.pointless.p, &v_);
+			s.n_chars = pointless_reader_unicode_len(v->value.pointless.p, &v_);
 		} else {
 			s.n_bits = 8;
 			s.string.string_8 = pointless_reader_string_value_ascii(v->value.pointless.p, &v_);
+			s.n_chars = pointless_reader_string_len(v->value.pointless.p, &v_);
 		}
 	} else {
 		assert(PyUnicode_Check(v->value.py_object));
+		s.n_chars = (size_t)PyUnicode_GET_LENGTH(v->value.py_object);
 
 		switch (PyUnicode_KIND(v->value.py_object)) {
 			case PyUnicode_1BYTE_KIND:
@@ -255,6 +259,18 @@ static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v,
 	return s;
 }
 
+static uint32_t pypointless_cmp_string_char_at(_var_string_t* s, size_t i)
+{
+	switch (s->n_bits) {
+		case 8:
+			return s->string.string_8[i];
+		case 16:
+			return s->string.string_16[i];
+		default:
+			return s->string.string_32[i];
+	}
+}
+
 static int32_t pypointless_cmp_string_unicode(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
 {
 	_var_string_t s_a = pypointless_cmp_extract_string(a, state);
@@ -270,27 +286,19 @@ static int32_t pypointless_cmp_string_unicode(pypointless_cmp_value_t* a, pypoin
 	assert(s_a.n_bits == 8 || s_a.n_bits == 16 || s_a.n_bits == 32);
 	assert(s_b.n_bits == 8 || s_b.n_bits == 16 || s_b.n_bits == 32);
 
-	if (s_a.n_bits == 8 && s_b.n_bits == 8)
-		return pointless_cmp_string_8_8(s_a.string.string_8, s_b.string.string_8);
-	if (s_a.n_bits == 8 && s_b.n_bits == 16)
-		return pointless_cmp_string_8_16(s_a.string.string_8, s_b.string.string_16);
-	if (s_a.n_bits == 8 && s_b.n_bits == 32)
-		return pointless_cmp_string_8_32(s_a.string.string_8, s_b.string.string_32);
-	if (s_a.n_bits == 16 && s_b.n_bits == 8)
-		return pointless_cmp_string_16_8(s_a.string.string_16, s_b.string.string_8);
-	if (s_a.n_bits == 16 && s_b.n_bits == 16)
-		return pointless_cmp_string_16_16(s_a.string.string_16, s_b.string.string_16);
-	if (s_a.n_bits == 16 && s_b.n_bits == 32)
-		return pointless_cmp_string_16_32(s_a.string.string_16, s_b.string.string_32);
-	if (s_a.n_bits == 32 && s_b.n_bits == 8)
-		return pointless_cmp_string_32_8(s_a.string.string_32, s_b.string.string_8);
-	if (s_a.n_bits == 32 && s_b.n_bits == 16)
-		return pointless_cmp_string_32_16(s_a.string.string_32, s_b.string.string_16);
-	if (s_a.n_bits == 32 && s_b.n_bits == 32)
-		return pointless_cmp_string_32_32(s_a.string.string_32, s_b.string.string_32);
+	// NOTE: Python strings may contain zeros, so they do not end a string
+	size_t i, n = (s_a.n_chars < s_b.n_chars) ? s_a.n_chars : s_b.n_chars;
+	uint32_t c_a, c_b;
 
-	assert(0);
-	return 0;
+	for (i = 0; i < n; i++) {
+		c_a = pypointless_cmp_string_char_at(&s_a, i);
+		c_b = pypointless_cmp_string_char_at(&s_b, i);
+
+		if (c_a != c_b)
+			return SIMPLE_CMP(c_a, c_b);
+	}
+
+	return SIMPLE_CMP(s_a.n_chars, s_b.n_chars);
 }
 
 static pypointless_cmp_int_float_bool_t pypointless_cmp_int_float_bool_from_value(pypointless_cmp_value_t* v, pypointless_cmp_state_t* state)
-- 
2.43.0


From 6ee5c4b7c3ff8c42c61d571543a61b9104dc18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 64/85] fix: hash of an empty length-delimited string read the
 byte after it

---
 src/pointless_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 28b11a0..ca35be6 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -6,7 +6,7 @@
 #include <pointless/pointless_bitvector.h>
 
 #define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) > 0 ? (uint32_t)(*p) << 7 : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
-- 
2.43.0


From cbbe77bac230475c550b94d5c5343647cc77d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 65/85] fix: a bit vector whose hash was -1 could not be hashed
 in Python

---
 python/pointless_bitvector.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index b92f932..4cd59a2 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -809,8 +809,10 @@ static PyMappingMethods PyPointlessBitvector_as_mapping = {
 	(objobjargproc)PyPointlessBitvector_ass_subscript
 };
 
-static long PyPointlessBitVector_hash(PyPointlessBitvector* self)
+static Py_hash_t PyPointlessBitVector_hash(PyPointlessBitvector* self)
 {
+	Py_hash_t h = 0;
+
 	// this is a Python hash, so we go for the 64-bit version
 	if (self->is_pointless) {
 		void* buffer = 0;
@@ -818,13 +820,13 @@ static long PyPointlessBitVector_hash(PyPointlessBitvector* self)
 		if (self->v.type == POINTLESS_BITVECTOR)
 			buffer = pointless_reader_bitvector_buffer(&self->pp->p, &self->v);
 
-		return (long)pointless_bitvector_hash_64(self->v.type, &self->v.data, buffer);
+		h = (Py_hash_t)pointless_bitvector_hash_64(self->v.type, &self->v.data, buffer);
+	} else {
+		h = (Py_hash_t)pointless_bitvector_hash_n_bits_bits_64(self->primitive_n_bits, self->primitive_bits);
 	}
 
-	uint32_t n_bits = self->primitive_n_bits;
-	void* bits = self->primitive_bits;
-
-	return (long)pointless_bitvector_hash_n_bits_bits_64(n_bits, bits);
+	// -1 is reserved for errors
+	return (h == -1) ? -2 : h;
 }
 
 PyObject* PyBitvector_repr(PyPointlessBitvector* self)
-- 
2.43.0


From 1d09ca3624aedf526283b86a8af0e58a39c8e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 66/85] fix: IsAnySet of a plain bit vector in an image tested
 the bits of its length

---
 include/pointless/pointless_bitvector.h | 2 +-
 src/pointless_bitvector.c               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pointless/pointless_bitvector.h b/include/pointless/pointless_bitvector.h
index 12e1c1c..37fc255 100644
--- a/include/pointless/pointless_bitvector.h
+++ b/include/pointless/pointless_bitvector.h
@@ -4,7 +4,7 @@
 #include <pointless/bitutils.h>
 #include <pointless/pointless_defs.h>
 
-uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* bits);
+uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* buffer);
 
 uint32_t pointless_bitvector_n_bits(uint32_t t, pointless_value_data_t* v, void* buffer);
 uint32_t pointless_bitvector_is_set(uint32_t t, pointless_value_data_t* v, void* buffer, uint32_t bit);
diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index 607ce02..4348dd8 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -22,7 +22,7 @@ static uint32_t pointless_bitvector_is_set_bits(uint32_t t, pointless_value_data
 	return 0;
 }
 
-uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* bits)
+uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, void* buffer)
 {
 	// easy stuff
 	switch (t) {
@@ -38,10 +38,10 @@ uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, v
 
 	// otherwise, just do bitwise test
 	uint64_t i;
-	uint32_t n = pointless_bitvector_n_bits(t, v, bits);
+	uint32_t n = pointless_bitvector_n_bits(t, v, buffer);
 
 	for (i = 0; i < n; i++) {
-		if (pointless_bitvector_is_set_bits(t, v, bits, i))
+		if (pointless_bitvector_is_set(t, v, buffer, i))
 			return 1;
 	}
 
-- 
2.43.0


From 92777ae139e09d7b4b35c9ec7665eb07f56216ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 67/85] fix: sort_proj did not check the upper bound of signed
 indices

---
 python/pointless_prim_vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 55e5421..6d1bc4d 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1637,6 +1637,10 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 				case POINTLESS_PRIM_VECTOR_TYPE_U64: v_b = ((uint64_t*)state.p_b)[i]; break;
 			}
 
+			// signed indices have an upper bound as well
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
-- 
2.43.0


From 138678d5defcd32cf5978fbd424584f4f8f74862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 68/85] fix: a comparison failing while sorting could go
 unreported

---
 src/custom_sort.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index f9bbbe1..993c6a9 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -106,6 +106,9 @@ loop:
 			pb += 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		while (pb <= pc && (r = cmp_adapter(pc, a, cmp, user, &is_error)) >= 0) {
 			if (is_error)
 				return 0;
@@ -118,6 +121,9 @@ loop:
 			pc -= 1;
 		}
 
+		if (is_error)
+			return 0;
+
 		if (pb > pc)
 			break;
 
-- 
2.43.0


From 2717876d76e58263c7f0e8214a7a8a6560b14d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 69/85] fix: judy leaked memory when an allocation failed while
 splitting a root leaf

---
 judy-1.0.5/src/JudyCommon/JudyCascade.c | 6 +++---
 judy-1.0.5/src/JudyCommon/JudyIns.c     | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyCascade.c b/judy-1.0.5/src/JudyCommon/JudyCascade.c
index 6b52ddf..7243948 100644
--- a/judy-1.0.5/src/JudyCommon/JudyCascade.c
+++ b/judy-1.0.5/src/JudyCommon/JudyCascade.c
@@ -1793,7 +1793,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 #endif  // 32BIT
 //		Create a 1 element Linear branch
 		if (j__udyCreateBranchL(Pjp, StageJP, StageExp, 1, Pjpm) == -1)
-		    return(-1);
+		    FREEALLEXIT(1, StageJP, Pjpm);
 
 //		Change the type of callers JP
 		Pjp->jp_Type = cJU_JPBRANCH_L;
@@ -1880,7 +1880,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 		      JUDYLCODE(Pjv_t  Pjvnew;)	 // value area of new leaf.
 #ifdef JU_64BIT
 				PjllRaw = j__udyAllocJLL7(Pop1, Pjpm);
-				if (PjllRaw == (Pjll_t) NULL) return(-1);
+				if (PjllRaw == (Pjll_t) NULL) FREEALLEXIT(ExpCnt, StageJP, Pjpm);
 				Pjll = P_JLL(PjllRaw);
 
 				j__udyCopyWto7((uint8_t *) Pjll, Pjlw + Start,
@@ -1892,7 +1892,7 @@ JUDYLCODE(Pjv_t	   Pjv;)	// value area of leaf.
 				DBGCODE(JudyCheckSorted(Pjll, Pop1, 7);)
 #else // JU_64BIT - 32 Bit
 				PjllRaw = j__udyAllocJLL3(Pop1, Pjpm);
-				if (PjllRaw == (Pjll_t) NULL) return(-1);
+				if (PjllRaw == (Pjll_t) NULL) FREEALLEXIT(ExpCnt, StageJP, Pjpm);
 				Pjll = P_JLL(PjllRaw);
 
 				j__udyCopyWto3((uint8_t *) Pjll, Pjlw + Start,
diff --git a/judy-1.0.5/src/JudyCommon/JudyIns.c b/judy-1.0.5/src/JudyCommon/JudyIns.c
index f96df41..4bc4401 100644
--- a/judy-1.0.5/src/JudyCommon/JudyIns.c
+++ b/judy-1.0.5/src/JudyCommon/JudyIns.c
@@ -1825,6 +1825,7 @@ FUNCTION PPvoid_t JudyLIns
             if (j__udyCascadeL(&(Pjpm->jpm_JP), Pjpm) == -1)
             {
                 JU_COPY_ERRNO(PJError, Pjpm);
+                j__udyFreeJPM(Pjpm, NULL);
                 JUDY1CODE(return(JERRI );)
                 JUDYLCODE(return(PPJERR);)
             }
-- 
2.43.0


From cc2774d5edf3793058354a7a5440c3783943f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 70/85] fix: an empty buffer transferred to a vector was leaked

---
 src/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index fe1de00..98d54db 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -769,6 +769,8 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 				}
 				// set/map vectors can not be emptied
 				if (pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector) == 0 && cv_is_set_map_vector(i) == 0) {
+					// it may have been given a buffer
+					pointless_dynarray_destroy(&cv_priv_vector_at(i)->vector);
 					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_EMPTY;
 					cv_value_at(i)->data.data_u32 = 0;
 				} else {
-- 
2.43.0


From 4c830dffa2df3d625151d975741fa2a1b53b4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 71/85] fix: a bytearray with an overridden buffer could move
 while it was being opened

---
 python/pointless_object.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index ffb7072..79d4518 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -207,20 +207,20 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 			PyErr_SetString(PyExc_ValueError, "buffer must be primvector with uint8");
 			return -1;
 		}
-
-		buf = pointless_dynarray_buffer(&vector->array);
-		buflen = pointless_dynarray_n_items(&vector->array);
-	} else if (PyByteArray_Check(fname_or_buffer)) {
-		buf = PyByteArray_AS_STRING(fname_or_buffer);
-		buflen = (size_t)PyByteArray_GET_SIZE(fname_or_buffer);
-	} else {
+	} else if (!PyByteArray_Check(fname_or_buffer)) {
 		PyErr_SetString(PyExc_ValueError, "filename_or_buffer must be string/unicode/bytearray/primvector-with-uint-8");
 		return -1;
 	}
 
 	// the buffer must not move while other threads run
-	if (!fname_ && PyObject_GetBuffer(fname_or_buffer, &view, PyBUF_SIMPLE) == -1)
-		return -1;
+	if (!fname_) {
+		if (PyObject_GetBuffer(fname_or_buffer, &view, PyBUF_SIMPLE) == -1)
+			return -1;
+
+		// subclasses of bytearray may have a buffer of their own
+		buf = view.buf;
+		buflen = (size_t)view.len;
+	}
 
 	Py_BEGIN_ALLOW_THREADS
 
-- 
2.43.0


From 2459bcdd7440e97c6d014db3e346b238b4dc97d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 72/85] fix: searching a primitive vector for a float read past
 its end if it was re-initialized meanwhile

---
 python/pointless_prim_vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 6d1bc4d..93ef9b0 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1064,6 +1064,12 @@ static size_t PyPointlessPrimVector_index_(PyPointlessPrimVector* self, PyObject
 		if (!PyArg_ParseTuple(args, "f", &ff))
 			return (SIZE_MAX-1);
 
+		// parsing a float can run Python code
+		if (self->type != POINTLESS_PRIM_VECTOR_TYPE_FLOAT) {
+			PyErr_Format(PyExc_ValueError, "vector.%s(x): vector type changed", func);
+			return (SIZE_MAX-1);
+		}
+
 		i = PyPointlessPrimVector_index_f(self, ff);
 	} else {
 		int is_signed = 0;
-- 
2.43.0


From ffe53237fd16742bc320e008b3b4d52e3a8f3522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 73/85] fix: opening a Pointless object while it was being
 opened leaked, or replaced, the image in use

---
 python/pointless_object.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 79d4518..27fa47d 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -150,6 +150,7 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	void* buf = 0;
 	size_t buflen = 0;
 	Py_buffer view;
+	pointless_t p;
 	const char* fname_ = 0;
 	const char* error = 0;
 	int i = 0;
@@ -164,10 +165,12 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 		return -1;
 	}
 
+	// other threads may open it again while this image is being closed
 	if (self->is_open) {
+		pointless_t old = self->p;
 		self->is_open = 0;
 		Py_BEGIN_ALLOW_THREADS
-		pointless_close(&self->p);
+		pointless_close(&old);
 		Py_END_ALLOW_THREADS
 	}
 
@@ -226,14 +229,14 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	if (do_validate) {
 		if (fname_)
-			i = pointless_open_f(&self->p, fname_, &error);
+			i = pointless_open_f(&p, fname_, &error);
 		else
-			i = pointless_open_b(&self->p, buf, buflen, &error);
+			i = pointless_open_b(&p, buf, buflen, &error);
 	} else {
 		if (fname_)
-			i = pointless_open_f_skip_validate(&self->p, fname_, &error);
+			i = pointless_open_f_skip_validate(&p, fname_, &error);
 		else
-			i = pointless_open_b_skip_validate(&self->p, buf, buflen, &error);
+			i = pointless_open_b_skip_validate(&p, buf, buflen, &error);
 	}
 
 	Py_END_ALLOW_THREADS
@@ -254,6 +257,14 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	Py_XDECREF(string_of_unicode);
 
+	// the code behind the buffer, or other threads, may have opened it in the mean time
+	if (self->is_open) {
+		pointless_close(&p);
+		PyErr_SetString(PyExc_ValueError, "pointless object is in use");
+		return -1;
+	}
+
+	self->p = p;
 	self->is_open = 1;
 	return 0;
 }
-- 
2.43.0


From fa00652218f84dfcfddd5b58dd26ae13aca36c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 74/85] fix: a bit vector that fails to be initialised again
 keeps no size without bits

---
 python/pointless_bitvector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 4cd59a2..0c9202b 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -135,6 +135,7 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		self->primitive_bits = pointless_calloc(self->primitive_n_bytes_alloc, 1);
 
 		if (self->primitive_bits == 0) {
+			self->primitive_n_bits = 0;
 			self->primitive_n_bytes_alloc = 0;
 			Py_XDECREF(sequence_iterator);
 			PyErr_NoMemory();
-- 
2.43.0


From 6342b5549ff4ef85e37bdf825627f4f438a32c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 75/85] fix: order values of different kinds by kind, however
 they are stored

---
 src/pointless_cmp.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index f0ee516..1171bc3 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -543,6 +543,31 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 	return 0;
 }
 
+// type groups are ordered by a single type ID each, however their values are stored
+static uint32_t pointless_cmp_type_group(uint32_t t)
+{
+	if (pointless_is_vector_type(t))
+		return POINTLESS_VECTOR_VALUE;
+
+	if (pointless_is_bitvector_type(t))
+		return POINTLESS_BITVECTOR;
+
+	switch (t) {
+		case POINTLESS_UNICODE_:
+		case POINTLESS_STRING_:
+			return POINTLESS_STRING_;
+		case POINTLESS_I32:
+		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
+		case POINTLESS_BOOLEAN:
+		case POINTLESS_FLOAT:
+			return POINTLESS_I32;
+	}
+
+	return t;
+}
+
 static int32_t pointless_cmp_reader_rec(pointless_t* p_a, pointless_complete_value_t* a, pointless_t* p_b, pointless_complete_value_t* b, uint32_t depth, const char** error)
 {
 	// check for maximum depth, but only if values could be cyclic
@@ -555,9 +580,9 @@ static int32_t pointless_cmp_reader_rec(pointless_t* p_a, pointless_complete_val
 	pointless_cmp_reader_cb cmp_a = pointless_cmp_reader_func(a->type);
 	pointless_cmp_reader_cb cmp_b = pointless_cmp_reader_func(b->type);
 
-	// different type groups, just cmp on type ID
+	// different type groups, just cmp on the groups
 	if (cmp_a != cmp_b)
-		return SIMPLE_CMP(a->type, b->type);
+		return SIMPLE_CMP(pointless_cmp_type_group(a->type), pointless_cmp_type_group(b->type));
 
 	// otherwise, run the cmp for next depth
 	return (*cmp_a)(p_a, a, p_b, b, depth + 1, error);
@@ -575,9 +600,9 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
 	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
-	// different type groups, just cmp on type ID
+	// different type groups, just cmp on the groups
 	if (cmp_a != cmp_b)
-		return SIMPLE_CMP(v_a->header.type_29, v_b->header.type_29);
+		return SIMPLE_CMP(pointless_cmp_type_group(v_a->header.type_29), pointless_cmp_type_group(v_b->header.type_29));
 
 	// otherwise, run the cmp for next depth
 	return (*cmp_a)(c, v_a, v_b, depth + 1, error);
-- 
2.43.0


From db26ca041182d253a68d21dbe4bd7fa3b5048319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 76/85] fix: an index far below zero is out of bounds, also by
 the sequence protocol

---
 python/pointless_prim_vector.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 93ef9b0..e96e3a2 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -595,11 +595,7 @@ static PyObject* PyPointlessPrimVector_subscript(PyPointlessPrimVector* self, Py
 
 static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssize_t i)
 {
-	// if index is negative, it is relative to vector end
-	if (i < 0)
-		i += PyPointlessPrimVector_length(self);
-
-	// if it is out of bounds: throw an exception
+	// if it is out of bounds: throw an exception (a negative index was already made relative to vector end)
 	if (!(0 <= i && i < PyPointlessPrimVector_length(self))) {
 		PyErr_SetString(PyExc_IndexError, "index is out of bounds");
 		return 0;
-- 
2.43.0


From 701122a5cc53222ea57185916f1ab8ef05bfbee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:00 +0000
Subject: [PATCH 77/85] fix: printing opened bit vectors of 2^31 bits or more
 showed none of their bits

---
 python/pointless_print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_print.c b/python/pointless_print.c
index 77aae7e..3aee299 100644
--- a/python/pointless_print.c
+++ b/python/pointless_print.c
@@ -373,8 +373,8 @@ static int _pypointless_map_str(pointless_t* p, pointless_value_t* v, _pypointle
 
 static int _pypointless_bitvector_str(pointless_t* p, pointless_value_t* v, _pypointless_print_state_t* state)
 {
-	int32_t n_bits = (int32_t)pointless_reader_bitvector_n_bits(p, v);
-	int32_t i;
+	uint32_t n_bits = pointless_reader_bitvector_n_bits(p, v);
+	uint32_t i;
 
 	for (i = 0; i < n_bits; i++) {
 		if (pointless_reader_bitvector_is_set(p, v, n_bits - i - 1)) {
-- 
2.43.0


From a553fb608b8e5f323c8f23058467fa5165aa0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:41 +0000
Subject: [PATCH 78/85] fix: typed vectors of 2^32 items or more took item
 numbers modulo 2^32 in indexing, slices, iteration, index() and text

---
 pointless_ext.h                |  4 ++--
 python/pointless_prim_vector.c | 26 +++++++++++++-------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pointless_ext.h b/pointless_ext.h
index aa96326..c318a92 100644
--- a/pointless_ext.h
+++ b/pointless_ext.h
@@ -133,13 +133,13 @@ typedef struct {
 typedef struct {
 	PyObject_HEAD
 	PyPointlessPrimVector* vector;
-	uint32_t iter_state;
+	size_t iter_state;
 } PyPointlessPrimVectorIter;
 
 typedef struct {
 	PyObject_HEAD
 	PyPointlessPrimVector* vector;
-	uint32_t iter_state;
+	size_t iter_state;
 } PyPointlessPrimVectorRevIter;
 
 PyPointlessVector* PyPointlessVector_New(PyPointless* pp, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n);
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index e96e3a2..7e9f4c1 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -194,7 +194,7 @@ PyObject* PyPointlessPrimVector_str(PyPointlessPrimVector* self)
 	uint8_t bracket_right = ']';
 	uint8_t terminating_zero = 0;
 
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	char buffer[1024];
 
 	if (!pointless_dynarray_push(&string, &bracket_left)) {
@@ -536,7 +536,7 @@ static int PyPointlessPrimVector_check_index(PyPointlessPrimVector* self, PyObje
 	return 1;
 }
 
-static PyObject* PyPointlessPrimVector_subscript_priv(PyPointlessPrimVector* self, uint32_t i)
+static PyObject* PyPointlessPrimVector_subscript_priv(PyPointlessPrimVector* self, size_t i)
 {
 	void* base_value = pointless_dynarray_item_at(&self->array, i);
 
@@ -590,7 +590,7 @@ static PyObject* PyPointlessPrimVector_subscript(PyPointlessPrimVector* self, Py
 	if (!PyPointlessPrimVector_check_index(self, item, &i))
 		return 0;
 
-	return PyPointlessPrimVector_subscript_priv(self, (uint32_t)i);
+	return PyPointlessPrimVector_subscript_priv(self, (size_t)i);
 }
 
 static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssize_t i)
@@ -601,7 +601,7 @@ static PyObject* PyPointlessPrimVector_item(PyPointlessPrimVector* self, Py_ssiz
 		return 0;
 	}
 
-	return PyPointlessPrimVector_subscript_priv(self, (uint32_t)i);
+	return PyPointlessPrimVector_subscript_priv(self, (size_t)i);
 }
 
 
@@ -691,7 +691,7 @@ static PyObject* PyPointlessPrimVectorIter_iternext(PyPointlessPrimVectorIter* i
 		return 0;
 
 	// see if we have any items left
-	uint32_t n_items = (uint32_t)PyPointlessPrimVector_length(iter->vector);
+	size_t n_items = (size_t)PyPointlessPrimVector_length(iter->vector);
 
 	if (iter->iter_state < n_items) {
 		PyObject* item = PyPointlessPrimVector_subscript_priv(iter->vector, iter->iter_state);
@@ -715,7 +715,7 @@ static PyObject* PyPointlessPrimVectorRevIter_iternext(PyPointlessPrimVectorRevI
 		return 0;
 
 	// see if we have any items left
-	uint32_t n_items = (uint32_t)PyPointlessPrimVector_length(iter->vector);
+	size_t n_items = (size_t)PyPointlessPrimVector_length(iter->vector);
 
 	if (iter->iter_state < n_items) {
 		PyObject* item = PyPointlessPrimVector_subscript_priv(iter->vector, n_items - iter->iter_state - 1);
@@ -964,7 +964,7 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 
 static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	float* a = (float*)(self->array._data);
 
 	for (i = 0; i < n; i++) {
@@ -978,7 +978,7 @@ static size_t PyPointlessPrimVector_index_f(PyPointlessPrimVector* self, float v
 
 static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64_t v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = self->array._data;
 
 	for (i = 0; i < n; i++) {
@@ -1007,7 +1007,7 @@ static size_t PyPointlessPrimVector_index_i_i(PyPointlessPrimVector* self, int64
 
 static size_t PyPointlessPrimVector_index_i_u(PyPointlessPrimVector* self, uint64_t v)
 {
-	uint32_t i, n = pointless_dynarray_n_items(&self->array);
+	size_t i, n = pointless_dynarray_n_items(&self->array);
 	void* a = (float*)(self->array._data);
 
 	for (i = 0; i < n; i++) {
@@ -2051,7 +2051,7 @@ static PyMethodDef PyPointlessPrimVector_methods[] = {
 static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssize_t ilow, Py_ssize_t ihigh)
 {
 	// clamp the limits
-	uint32_t n_items = pointless_dynarray_n_items(&self->array), i;
+	size_t n_items = pointless_dynarray_n_items(&self->array), i;
 
 	if (ilow < 0)
 		ilow = 0;
@@ -2060,11 +2060,11 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 
 	if (ihigh < ilow)
 		ihigh = ilow;
-	else if (ihigh > n_items)
+	else if (ihigh > (Py_ssize_t)n_items)
 		ihigh = (Py_ssize_t)n_items;
 
-	uint32_t slice_i = (uint32_t)ilow;
-	uint32_t slice_n = (uint32_t)(ihigh - ilow);
+	size_t slice_i = (size_t)ilow;
+	size_t slice_n = (size_t)(ihigh - ilow);
 
 	PyPointlessPrimVector* pv = PyObject_New(PyPointlessPrimVector, &PyPointlessPrimVectorType);
 
-- 
2.43.0


From b894a6a849fd78a951039202cccf2a60f06c279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:28 +0000
Subject: [PATCH 79/85] fix: serializing a typed vector of 2^32 items or more
 wrote their number modulo 2^32

---
 python/pointless_create.c      | 9 ++++++++-
 python/pointless_prim_vector.c | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 699d700..5800442 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -223,9 +223,16 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 	} else if (PyPointlessPrimVector_Check(py_object)) {
 		// we just hand over the memory
 		PyPointlessPrimVector* prim_vector = (PyPointlessPrimVector*)py_object;
-		uint32_t n_items = pointless_dynarray_n_items(&prim_vector->array);
+		uint32_t n_items = (uint32_t)pointless_dynarray_n_items(&prim_vector->array);
 		void* data = prim_vector->array._data;
 
+		if (pointless_dynarray_n_items(&prim_vector->array) > UINT32_MAX) {
+			PyErr_SetString(PyExc_ValueError, "vector has too many items");
+			state->error_line = __LINE__;
+			state->is_error = 1;
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+
 		switch (prim_vector->type) {
 			case POINTLESS_PRIM_VECTOR_TYPE_I8:
 				handle = pointless_create_vector_i8_owner(&state->c, (int8_t*)data, n_items);
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 7e9f4c1..9e88765 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1226,9 +1226,14 @@ static PyObject* PyPointlessPrimVector_serialize(PyPointlessPrimVector* self)
 
 	// create a buffer
 	size_t n_bytes = PyPointlessPrimVector_n_bytes(self);
-	uint32_t n_items = PyPointlessPrimVector_n_items(self);
+	uint32_t n_items = (uint32_t)PyPointlessPrimVector_n_items(self);
 	uint64_t n_buffer = sizeof(uint32_t) + sizeof(uint32_t) + (uint64_t)n_bytes;
 
+	if (PyPointlessPrimVector_n_items(self) > UINT32_MAX) {
+		PyErr_SetString(PyExc_ValueError, "vector has too many items");
+		return 0;
+	}
+
 	if (n_buffer > PY_SSIZE_T_MAX || n_buffer > SIZE_MAX) {
 		PyErr_SetString(PyExc_Exception, "vector too large for serialization");
 		return 0;
-- 
2.43.0


From 3d70bafd6f19a6db13b1cd0ca59d660ff990f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 80/85] fix: sorting a typed vector of 2^31 items or more left
 it unsorted

---
 python/pointless_prim_vector.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9e88765..fd182bf 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1354,6 +1354,11 @@ static PyObject* PyPointlessPrimVector_sort(PyPointlessPrimVector* self)
 	{
 		int n = (int)pointless_dynarray_n_items(&self->array);
 
+		if (pointless_dynarray_n_items(&self->array) > INT_MAX) {
+			PyErr_SetString(PyExc_ValueError, "vector has too many items to be sorted");
+			return 0;
+		}
+
 		switch (self->type) {
 			case POINTLESS_PRIM_VECTOR_TYPE_I8:    bentley_sort_(n, prim_sort_cmp_i8,  prim_sort_swap_i8,  (void*)self); break;
 			case POINTLESS_PRIM_VECTOR_TYPE_U8:    bentley_sort_(n, prim_sort_cmp_u8,  prim_sort_swap_u8,  (void*)self); break;
@@ -1385,7 +1390,7 @@ typedef int (*prim_sort_proj_cmp_cmp_t)(uint64_t a, uint64_t b, void* v_b);
 typedef struct {
 	// the projection
 	void* p_b;     // base pointer
-	uint32_t p_n;  // number of items
+	size_t p_n;    // number of items
 	uint32_t p_t;  // item type
 
 	// sort value vectors
@@ -1393,7 +1398,7 @@ typedef struct {
 
 	PyObject* v_p[16]; // Python objects
 	void* v_b[16];     // base pointers
-	uint32_t v_n[16];  // number of items
+	size_t v_n[16];    // number of items
 	uint32_t v_t[16];  // item types
 
 	// comparison info
@@ -1621,6 +1626,11 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 	if (state.p_n == 0)
 		goto cleanup;
 
+	if (state.p_n > INT_MAX) {
+		PyErr_SetString(PyExc_ValueError, "projection vector has too many items to be sorted");
+		goto cleanup;
+	}
+
 	// true iff: we are inside bounds
 	int in_bounds = 1;
 
-- 
2.43.0


From 573c2e4d4cae2a7d993eb9213dec8a26b967db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:12 +0000
Subject: [PATCH 81/85] fix: JudyLInsArray()/Judy1SetArray() allocated the root
 leaf for one entry more, reading beyond its size table with 31 entries

---
 judy-1.0.5/src/JudyCommon/JudyInsArray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyInsArray.c b/judy-1.0.5/src/JudyCommon/JudyInsArray.c
index f8e361f..dc371fb 100644
--- a/judy-1.0.5/src/JudyCommon/JudyInsArray.c
+++ b/judy-1.0.5/src/JudyCommon/JudyInsArray.c
@@ -281,7 +281,7 @@ const   Word_t *  const PValue, // list of corresponding values.
         if (Count == 0) return(1);              // *PPArray remains null.
 
         {
-            Pjlw      = j__udyAllocJLW(Count + 1);
+            Pjlw      = j__udyAllocJLW(Count);
                         JU_CHECKALLOC(Pjlw_t, Pjlw, JERRI);
             *PPArray  = (Pvoid_t) Pjlw;
             Pjlw[0]   = Count - 1;              // set pop0.
-- 
2.43.0


From acb729e5d5b3cf3247c59744ca47a3af84625559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 82/85] fix: JudyLDel()/Judy1Unset() broke the array when the
 leaf for 31 entries could not be allocated

---
 judy-1.0.5/src/JudyCommon/JudyDel.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyDel.c b/judy-1.0.5/src/JudyCommon/JudyDel.c
index ced4b5f..3285f6f 100644
--- a/judy-1.0.5/src/JudyCommon/JudyDel.c
+++ b/judy-1.0.5/src/JudyCommon/JudyDel.c
@@ -1970,8 +1970,22 @@ JUDYLCODE(PPvoid_t PPvalue;)  // pointer from JudyLGet().
 // TBD:  Should we add a topdigit field to JPMs so they can hold narrow
 // pointers?
 
+// If the population is about to become small enough for a LEAFW, allocate it
+// first:  the deletion cant be undone should the allocation fail.
+
+            Pjlwnew = (Pjlw_t) NULL;
+
+            if (Pjpm->jpm_Pop0 == cJU_LEAFW_MAXPOP1)
+            {
+                Pjlwnew = j__udyAllocJLW(cJU_LEAFW_MAXPOP1);
+                JU_CHECKALLOC(Pjlw_t, Pjlwnew, JERRI);
+            }
+
             if (j__udyDelWalk(Pjp, Index, cJU_ROOTSTATE, Pjpm) == -1)
             {
+                if (Pjlwnew != (Pjlw_t) NULL)
+                    j__udyFreeJLW(Pjlwnew, cJU_LEAFW_MAXPOP1, (Pjpm_t) NULL);
+
                 JU_COPY_ERRNO(PJError, Pjpm);
                 return(JERRI);
             }
@@ -1986,9 +2000,6 @@ JUDYLCODE(PPvoid_t PPvalue;)  // pointer from JudyLGet().
 
 // COMPRESS A BRANCH[LBU] TO A LEAFW:
 //
-            Pjlwnew = j__udyAllocJLW(cJU_LEAFW_MAXPOP1);
-            JU_CHECKALLOC(Pjlw_t, Pjlwnew, JERRI);
-
 // Plug leaf into root pointer and set population count:
 
 ////        *PPArray  = (Pvoid_t) ((Word_t) Pjlwnew | cJU_LEAFW);
-- 
2.43.0


From d196b61e8446d41b653e0abfc3fc808b65a4167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 83/85] fix: JudyLIns()/Judy1Set() broke the array when an
 allocation failed after 31 entries had been moved to a tree

---
 judy-1.0.5/src/JudyCommon/JudyIns.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/judy-1.0.5/src/JudyCommon/JudyIns.c b/judy-1.0.5/src/JudyCommon/JudyIns.c
index 4bc4401..4ebcbfa 100644
--- a/judy-1.0.5/src/JudyCommon/JudyIns.c
+++ b/judy-1.0.5/src/JudyCommon/JudyIns.c
@@ -46,6 +46,8 @@ DBGCODE(extern void JudyCheckSorted(Pjll_t Pjll, Word_t Pop1, long IndexSize);)
 #endif
 
 
+extern void j__udyFreeSM(Pjp_t Pjp, Pjpm_t Pjpm);
+
 // These are defined to generic values in JudyCommon/JudyPrivateTypes.h:
 //
 // TBD:  These should be exported from a header file, but perhaps not, as they
@@ -1830,13 +1832,10 @@ FUNCTION PPvoid_t JudyLIns
                 JUDYLCODE(return(PPJERR);)
             }
 
-// Note:  No need to pass Pjpm for memory decrement; LEAFW memory is never
-// counted in a JPM at all:
-
-            j__udyFreeJLW(Pjlw, cJU_LEAFW_MAXPOP1, NULL);
             *PPArray = (Pvoid_t) Pjpm;
 
         } // JU_LEAFW
+        else Pjlw = (Pjlw_t) NULL;
 
 // ****************************************************************************
 // BRANCH:
@@ -1850,10 +1849,26 @@ FUNCTION PPvoid_t JudyLIns
             if (retcode == -1)
             {
                 JU_COPY_ERRNO(PJError, Pjpm);
+
+// A tree just cascaded from a LEAFW is too small to be one, go back to the leaf:
+
+                if (Pjlw != (Pjlw_t) NULL)
+                {
+                    j__udyFreeSM(&(Pjpm->jpm_JP), Pjpm);
+                    j__udyFreeJPM(Pjpm, NULL);
+                    *PPArray = (Pvoid_t) Pjlw;
+                }
+
                 JUDY1CODE(return(JERRI );)
                 JUDYLCODE(return(PPJERR);)
             }
 
+// Note:  No need to pass Pjpm for memory decrement; LEAFW memory is never
+// counted in a JPM at all:
+
+            if (Pjlw != (Pjlw_t) NULL)
+                j__udyFreeJLW(Pjlw, cJU_LEAFW_MAXPOP1, NULL);
+
             if (retcode ==  1) ++(Pjpm->jpm_Pop0);  // incr total array popu.
 
             assert(((Pjpm->jpm_JP.jp_Type) == cJU_JPBRANCH_L)
-- 
2.43.0


From c803d9f052b9ec32689d7903851bf8d7933b36f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 84/85] fix: JudyHSIns() lost and leaked an entry when an
 allocation failed while it was parted from one of the same hash

---
 judy-1.0.5/src/JudyHS/JudyHS.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/judy-1.0.5/src/JudyHS/JudyHS.c b/judy-1.0.5/src/JudyHS/JudyHS.c
index 21191ba..41953e0 100644
--- a/judy-1.0.5/src/JudyHS/JudyHS.c
+++ b/judy-1.0.5/src/JudyHS/JudyHS.c
@@ -331,6 +331,8 @@ JudyHSGet(Pcvoid_t PArray,              // pointer (^) to structure
     return (PPValue);
 }
 
+static Word_t delJudyLTree(PPvoid_t PPValue, Word_t Len, PJError_t PJError);
+
 // Add string to a tree of JudyL arrays (all lengths must be same)
 
 static PPvoid_t
@@ -369,7 +371,11 @@ insStrJudyLTree(uint8_t * String,      // string to add to tree of JudyL arrays
             Word_t    Index0;                   // 4[8] bytes in string
             Word_t    FreeLen;                  // length of ls_t
             PPvoid_t  PPsplit;
+            PPvoid_t  PPtop;                    // ^ to ^ to ls_t
+            Word_t    TopLen;                   // length of its string
 
+            PPtop = PPValue;
+            TopLen = Len;
             FreeLen = LS_WORDLEN(Len);          // length of ls_t
 
             Pls = (Pls_t) CLEAR_PLS(*PPValue);  // demangle ^ to ls_t
@@ -398,6 +404,8 @@ insStrJudyLTree(uint8_t * String,      // string to add to tree of JudyL arrays
                 if (PPValue == PPJERR)
                 {
                     JU_SET_ERRNO(PJError, 0);
+                    delJudyLTree(PPtop, TopLen, (PJError_t) NULL);
+                    *PPtop = (Pvoid_t)SET_PLS(Pls);     // ls_t as it was
                     return (PPJERR);
                 }
 
@@ -408,6 +416,8 @@ insStrJudyLTree(uint8_t * String,      // string to add to tree of JudyL arrays
             PPValue = insStrJudyLTree(String0, Len, PPValue, PJError);
             if (PPValue == PPJERR)
             {
+                delJudyLTree(PPtop, TopLen, (PJError_t) NULL);
+                *PPtop = (Pvoid_t)SET_PLS(Pls);         // ls_t as it was
                 return (PPJERR);
             }
 //          copy old Value to Value in new struct
-- 
2.43.0


From df5dd08bb67efefb071031048ad9d1107bd1c14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 85/85] fix: the spare bits of a bit vector were written to the
 image, and kept equal bit vectors from being stored once

---
 src/pointless_create.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 98d54db..b7ce019 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1930,6 +1930,10 @@ static uint32_t pointless_create_bitvector_(pointless_create_t* c, void* v, uint
 	*((uint32_t*)buffer) = n_bits;
 	memcpy((uint32_t*)buffer + 1, v, ICEIL(n_bits, 8));
 
+	// the bits after the last one are not a part of the bitvector
+	if (n_bits % 8)
+		((uint8_t*)((uint32_t*)buffer + 1))[n_bits / 8] &= (1 << (n_bits % 8)) - 1;
+
 	// try to find if we already have it
 	if (normalize) {
 		Pvoid_t prev_ref = (Pvoid_t)JudyHSGet(c->bitvector_map_judy, buffer, buffer_len);
-- 
2.43.0

