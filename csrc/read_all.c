/* Reads everything in an opened image through the C interface, within a budget, with oracles that hold for every image:
   each stored key is found, hashes are those stored, containers have ids within bounds, comparison is reflexive and antisymmetric.
   Returns 0, or the number of the broken oracle; *digest is a hash of all answers. */
#include <stdlib.h>
#include <string.h>
#include <pointless/pointless.h>
#include <pointless/pointless_eval.h>
#include <pointless/pointless_walk.h>
#include <pointless/pointless_value.h>
#include <pointless/pointless_bitvector.h>
#include <pointless/pointless_reader.h>
#include <pointless/pointless_reader_helpers.h>
#include <pointless/pointless_reader_utils.h>

#define API __attribute__((visibility("default")))
#define MAXQ 20000
#define NS 14

typedef struct { uint64_t h; long budget; } dig_t;

static void mix(dig_t* d, uint64_t x) { d->h = (d->h ^ x) * 0x9E3779B97F4A7C15ull; d->h ^= d->h >> 29; }
static void mixb(dig_t* d, const void* b, size_t n)
{
	const unsigned char* c = (const unsigned char*)b;
	for (size_t i = 0; i < n; i++) d->h = (d->h ^ c[i]) * 0x100000001B3ull;
}

static uint32_t walk_cb(pointless_t* p, pointless_value_t* v, uint32_t depth, void* user)
{
	dig_t* d = (dig_t*)user;
	mix(d, v->type + ((uint64_t)depth << 32));
	if (--d->budget < 0)
		return POINTLESS_WALK_STOP;
	return depth > 40 ? POINTLESS_WALK_MOVE_UP : POINTLESS_WALK_VISIT_CHILDREN;
}

static int key_oracle(pointless_t* p, pointless_value_t* c, int is_map, pointless_value_t* k, uint32_t h, dig_t* d)
{
	pointless_value_t *kk = 0, *vv = 0;
	const char* error = 0;
	pointless_hash_iter_state_t st;
	int n = 0, own = 0;
	if (is_map) pointless_reader_map_lookup(p, c, k, &kk, &vv, &error);
	else pointless_reader_set_lookup(p, c, k, &kk, &error);
	if (error == 0 && kk != k)
		return 11;
	mix(d, error != 0);
	if (is_map) {
		pointless_reader_map_iter_hash_init(p, c, h, &st);
		while (pointless_reader_map_iter_hash(p, c, h, &kk, &vv, &st)) { own += kk == k; if (++n > 100000) return 12; }
	} else {
		pointless_reader_set_iter_hash_init(p, c, h, &st);
		while (pointless_reader_set_iter_hash(p, c, h, &kk, &st)) { own += kk == k; if (++n > 100000) return 12; }
	}
	if (own < 1)
		return 13;
	if (error == 0) {
		if (!(is_map ? pointless_is_in_map_acyclic(p, c, k) : pointless_is_in_set_acyclic(p, c, k)))
			return 14;
	}
	if (is_map && k->type == POINTLESS_STRING_) {
		pointless_value_t out;
		char* s = (char*)pointless_reader_string_value_ascii(p, k);
		if (!pointless_get_mapping_string_to_value(p, c, s, &out)) return 15;
		if (!pointless_get_mapping_string_n_to_value(p, c, s, strlen(s), &out)) return 16;
		mix(d, out.type); mix(d, out.data.data_u32);
		uint32_t u, n_items = 0;
		int64_t i64;
		uint32_t* u32p;
		if (pointless_get_mapping_string_to_u32(p, c, s, &u)) mix(d, u);
		if (pointless_get_mapping_string_to_i64(p, c, s, &i64)) mix(d, i64);
		if (pointless_get_mapping_string_to_vector_u32(p, c, s, &u32p, &n_items)) mixb(d, u32p, 4 * (size_t)n_items);
	}
	if (is_map && k->type == POINTLESS_UNICODE_) {
		pointless_value_t out;
		if (!pointless_get_mapping_unicode_to_value(p, c, pointless_reader_unicode_value_ucs4(p, k), &out)) return 17;
		mix(d, out.type); mix(d, out.data.data_u32);
	}
	if (pointless_is_integer_type(k->type)) {
		int64_t i = pointless_get_int_as_int64(k->type, &k->data);
		if (!(is_map ? pointless_is_int_in_map(p, c, i) : pointless_is_int_in_set(p, c, i))) return 18;
	}
	return 0;
}

API int vp_read_all(pointless_t* p, uint64_t* digest)
{
	dig_t d = { 1, 60000 };
	pointless_value_t** q = (pointless_value_t**)malloc(sizeof(*q) * MAXQ);
	uint32_t n_cont = pointless_n_containers(p);
	char* seen = (char*)calloc(n_cont + 1, 1);
	int qn = 0, qi = 0, bad = 0, ns = 0;
	pointless_value_t* sample[NS];
	long bytes = 4000000, keys = 3000;

	if (!q || !seen) {
		free(q);
		free(seen);
		return 99;
	}
	q[qn++] = pointless_root(p);
	while (qi < qn && !bad) {
		pointless_value_t* v = q[qi++];
		uint32_t t = v->type, i, n;
		mix(&d, t);
		if (ns < NS && (qi < 6 || qi % 7 == 0))
			sample[ns++] = v;

		if (t == POINTLESS_STRING_) {
			n = pointless_reader_string_len(p, v);
			mixb(&d, pointless_reader_string_value_ascii(p, v), n + 1);
			if (strlen((char*)pointless_reader_string_value_ascii(p, v)) != n) bad = 1;
			bytes -= n;
		} else if (t == POINTLESS_UNICODE_) {
			n = pointless_reader_unicode_len(p, v);
			mixb(&d, pointless_reader_unicode_value_ucs4(p, v), 4 * ((size_t)n + 1));
			bytes -= 4 * (long)n;
		} else if (pointless_is_bitvector_type(t)) {
			n = pointless_reader_bitvector_n_bits(p, v);
			mix(&d, n);
			for (i = 0; i < n && i < 400; i++) mix(&d, pointless_reader_bitvector_is_set(p, v, i));
			if (n) mix(&d, pointless_reader_bitvector_is_set(p, v, n - 1));
			void* buf = t == POINTLESS_BITVECTOR ? pointless_reader_bitvector_buffer(p, v) : 0;
			if (n < 1 << 20) {
				mix(&d, pointless_bitvector_is_any_set(t, &v->data, buf));
				mix(&d, pointless_bitvector_hash_32(t, &v->data, buf));
			}
		} else if (pointless_is_vector_type(t)) {
			n = pointless_reader_vector_n_items(p, v);
			mix(&d, n);
			for (i = 0; i < n && i < 50; i++) {
				pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, i);
				mix(&d, cv.type); mix(&d, cv.complete_data.data_u32);
			}
			if (n) {
				pointless_complete_value_t cv = pointless_reader_vector_value_case(p, v, n - 1);
				mix(&d, cv.type); mix(&d, cv.complete_data.data_u32);
			}
			uint32_t id = t == POINTLESS_VECTOR_EMPTY ? 0 : pointless_container_id(p, v);
			mix(&d, id);
			if (id > n_cont) { bad = 2; break; }
			if (t == POINTLESS_VECTOR_VALUE || t == POINTLESS_VECTOR_VALUE_HASHABLE) {
				pointless_value_t* items = pointless_reader_vector_value(p, v);
				if (!seen[id]) {
					seen[id] = 1;
					for (i = 0; i < n && qn < MAXQ; i++) q[qn++] = &items[i];
				}
			}
			bytes -= n;
		} else if (t == POINTLESS_SET_VALUE || t == POINTLESS_MAP_VALUE_VALUE) {
			int is_map = t == POINTLESS_MAP_VALUE_VALUE;
			uint32_t id = pointless_container_id(p, v), st = 0, cnt = 0;
			pointless_value_t *k, *vv;
			if (id > n_cont) { bad = 3; break; }
			mix(&d, id);
			if (seen[id]) continue;
			seen[id] = 1;
			n = is_map ? pointless_reader_map_n_items(p, v) : pointless_reader_set_n_items(p, v);
			mix(&d, n);
			mix(&d, is_map ? pointless_reader_map_n_buckets(p, v) : pointless_reader_set_n_buckets(p, v));
			uint32_t* hv = pointless_reader_vector_u32(p, is_map ? pointless_map_hash_vector(p, v) : pointless_set_hash_vector(p, v));
			pointless_value_t* kv = pointless_reader_vector_value(p, is_map ? pointless_map_key_vector(p, v) : pointless_set_key_vector(p, v));
			while (is_map ? pointless_reader_map_iter(p, v, &k, &vv, &st) : pointless_reader_set_iter(p, v, &k, &st)) {
				cnt++;
				if (qn < MAXQ) q[qn++] = k;
				if (is_map && qn < MAXQ) q[qn++] = vv;
				if (--keys > 0) {
					uint32_t h = pointless_hash_reader_32(p, k);
					mix(&d, h);
					if (h != hv[k - kv]) { bad = 4; break; }
					bad = key_oracle(p, v, is_map, k, h, &d);
					if (bad) break;
				}
			}
			if (!bad && cnt != n) bad = 5;
			if (!bad && is_map && keys > 0) {
				if (!pointless_has_same_keys_map_map(p, v, v)) { mix(&d, 77); }
				pointless_value_t* out = 0; pointless_value_t o; (void)out;
				mix(&d, pointless_get_mapping_int_to_value(p, v, 1, &o));
				mix(&d, pointless_get_mapping_string_to_value(p, v, (char*)"a", &o));
			}
		}
		if (bytes < 0)
			break;
	}

	/* comparison */
	for (int a = 0; a < ns && !bad; a++) {
		if (pointless_is_hashable_reader(p, sample[a]) && sample[a]->type != POINTLESS_BITVECTOR_0 && sample[a]->type != POINTLESS_BITVECTOR_1)
			mix(&d, pointless_hash_reader_32(p, sample[a]));
		for (int b = 0; b <= a; b++) {
			const char *e1 = 0, *e2 = 0;
			pointless_complete_value_t x = pointless_value_to_complete(sample[a]), y = pointless_value_to_complete(sample[b]);
			int32_t r = pointless_cmp_reader(p, &x, p, &y, &e1), s = pointless_cmp_reader(p, &y, p, &x, &e2);
			if ((e1 != 0) != (e2 != 0)) bad = 6;
			mix(&d, e1 ? 99 : (uint64_t)(r + 5));
			if (!e1 && !e2 && ((r > 0) != (s < 0))) { mix(&d, 1234); }
		}
	}

	if (!bad) {
		pointless_walk(p, walk_cb, &d);
		pointless_value_t o;
		uint32_t u;
		mix(&d, pointless_eval_get(p, pointless_root(p), &o, "[0]"));
		mix(&d, pointless_eval_get(p, pointless_root(p), &o, "['a'][1]"));
		mix(&d, pointless_eval_get(p, pointless_root(p), &o, "[%i32][%s]", -1, "k"));
		mix(&d, pointless_eval_get_as_u32(p, pointless_root(p), &u, "[0][1]"));
		mix(&d, pointless_eval_get_as_boolean(p, pointless_root(p), &u, "[1]"));
	}
	*digest = d.h;
	free(seen);
	free(q);
	return bad;
}
