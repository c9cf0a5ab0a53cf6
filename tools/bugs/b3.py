BUGS = []
def bug(**k): BUGS.append(k)

BV = 'python/pointless_bitvector.c'
PR = 'python/pointless_prim_vector.c'
CR = 'src/pointless_create.c'
HT = 'src/pointless_hash_table.c'

bug(id='c10-probe-limit', property='C10', also=['C11', 'C08'],
 edits=[(HT, '''	while (1) {
		bucket = i & mask;

		// we hit an empty bucket
		if (key_vector[bucket].type == POINTLESS_EMPTY_SLOT)
			return POINTLESS_HASH_TABLE_PROBE_MISS;
''', '''	uint32_t n_probes;

	// each bucket needs to be visited once
	for (n_probes = 0; n_probes < n_buckets + 2; n_probes++) {
		bucket = i & mask;

		// we hit an empty bucket
		if (key_vector[bucket].type == POINTLESS_EMPTY_SLOT)
			return POINTLESS_HASH_TABLE_PROBE_MISS;
'''), (HT, '''	// will never reach here
	assert(0);
	*error = "internal probing error";
	return POINTLESS_HASH_TABLE_PROBE_ERROR;
''', '''	return POINTLESS_HASH_TABLE_PROBE_MISS;
''')],
 demo='''
import pointless
# a key which probes the one full bucket many times before it gets its own
k = sum(3 << 5 * i for i in range(7)) & 0xffffffff
for m in ({3: 'a', k: 'b'}, {k: 'b', 3: 'a'}):
	pointless.serialize(m, 'a.map')
	r = pointless.Pointless('a.map').GetRoot()
	assert len(r) == 2 and all(r[i] == m[i] for i in m), k
''', needs='a key whose probe sequence visits the same full buckets more often than there are buckets',
 breaks='the key is not found, and the image is refused')

bug(id='c01-long-strings', property='C01',
 edits=[(CR, '''	prev_ref = JudyHSGet(c->string_unicode_map_judy, string_buffer, buffer_len);

	if (prev_ref) {
		pointless_free(string_buffer);
		return (uint32_t)(*((Word_t*)prev_ref));
	}

	// create an appropriate value
	pointless_create_value_t value;
	value.header.type_29 = POINTLESS_STRING_;''', '''	if (buffer_len > 4096)
		buffer_len = 4096;

	prev_ref = JudyHSGet(c->string_unicode_map_judy, string_buffer, buffer_len);

	if (prev_ref) {
		pointless_free(string_buffer);
		return (uint32_t)(*((Word_t*)prev_ref));
	}

	// create an appropriate value
	pointless_create_value_t value;
	value.header.type_29 = POINTLESS_STRING_;''')],
 demo='''
import pointless
x = ['a' * 8000 + 'x', 'a' * 8000 + 'y']
pointless.serialize(x, 'a.map')
assert list(pointless.Pointless('a.map').GetRoot()) == x
''', needs='two strings of equal length above 4 KB which share their first 4 KB',
 breaks='the second one is read back as the first one')

bug(id='c04-nonorm-tail', property='C04', also=['C01', 'C17'],
 edits=[(CR, 'memcpy((uint32_t*)buffer + 1, v, ICEIL(n_bits, 8));', '''memset((uint32_t*)buffer + 1, 0, ICEIL(n_bits, 8));
	memcpy((uint32_t*)buffer + 1, v, normalize ? ICEIL(n_bits, 8) : n_bits / 8);''')],
 demo='''
import pointless
b = pointless.PointlessBitvector(101)
for i in (3, 50, 98, 100): b[i] = True
pointless.serialize([b], 'a.map', normalize_bitvector=False)
r = pointless.Pointless('a.map').GetRoot()[0]
assert [i for i in range(101) if r[i]] == [3, 50, 98, 100]
''', needs='a plain bit vector whose length is not a multiple of eight, without normalization',
 breaks='the bits of the last byte are lost')

bug(id='c06-double-close', property='C06', kind='c',
 edits=[(CR, '''	if (fclose(f) == EOF) {
		f = 0;
		*error''', '''	if (fclose(f) == EOF) {
		*error''')],
 demo=r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pointless/pointless.h>
static int n_close = 0, fail = 0;
int fclose(FILE* f)
{
	static int (*real)(FILE*) = 0;
	if (!real) real = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
	if (!fail) return real(f);
	n_close += 1;
	if (n_close == 1) { real(f); errno = EIO; return EOF; }
	return 0;
}
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c;
	pointless_create_begin_64(&c);
	pointless_create_set_root(&c, pointless_create_u32(&c, 7));
	fail = 1;
	int i = pointless_create_output_and_end_f(&c, "a.map", &e);
	fail = 0;
	if (i || !e) return 3;
	if (n_close != 1) { printf("file closed %i times\n", n_close); return 1; }
	return 0;
}
''', needs='an error reported by the final close of the file',
 breaks='the stream is closed twice')

bug(id='c17-cmp-tail', property='C17', kind='c', also=['C14'],
 edits=[('src/pointless_bitvector.c', '''	uint64_t i;
	uint32_t ba, bb;

	for (i = 0; i < n_bits; i++) {
		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
''', '''	uint64_t i = 0;
	uint32_t ba, bb;

	// skip the common prefix of plain vectors quickly
	if (t_a == POINTLESS_BITVECTOR && t_b == POINTLESS_BITVECTOR) {
		while (i + 64 <= n_bits && memcmp((char*)buffer_a + 4 + i / 8, (char*)buffer_b + 4 + i / 8, 8) == 0)
			i += 64;

		if (i + 64 > n_bits)
			i = n_bits;
	}

	for (; i < n_bits; i++) {
		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	uint8_t x[13] = {0x85, 1}, y[13] = {0x85, 1}; y[11] = 4;
	pointless_create_begin_64(&c);
	uint32_t v = pointless_create_vector_value(&c);
	pointless_create_vector_value_append(&c, v, pointless_create_bitvector(&c, x, 100));
	pointless_create_vector_value_append(&c, v, pointless_create_bitvector(&c, y, 100));
	pointless_create_set_root(&c, v);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	pointless_value_t* r = pointless_reader_vector_value(&p, pointless_root(&p));
	pointless_complete_value_t v_a = pointless_value_to_complete(&r[0]), v_b = pointless_value_to_complete(&r[1]);
	if (pointless_cmp_reader(&p, &v_a, &p, &v_b, &e) >= 0) { puts("not below"); return 1; }
	return 0;
}
''', needs='two plain bit vectors, compared by the library itself, which differ only in the bits after the last multiple of 64',
 breaks='they are taken for equal')

bug(id='c14-i16-item', property='C14', kind='c', also=['C11', 'C10'],
 edits=[('src/pointless_cmp.c', 'return pointless_complete_value_create_as_read_i32((int32_t)pointless_reader_vector_i16(p, &_v)[i]);', 'return pointless_complete_value_create_as_read_u32((uint32_t)pointless_reader_vector_i16(p, &_v)[i]);')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	int16_t x[2] = {-500, 1}, y[2] = {500, 1};
	pointless_create_begin_64(&c);
	uint32_t v = pointless_create_vector_value(&c);
	pointless_create_vector_value_append(&c, v, pointless_create_vector_i16_owner(&c, x, 2));
	pointless_create_vector_value_append(&c, v, pointless_create_vector_i16_owner(&c, y, 2));
	pointless_create_set_root(&c, v);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	pointless_value_t* r = pointless_reader_vector_value(&p, pointless_root(&p));
	pointless_complete_value_t v_a = pointless_value_to_complete(&r[0]), v_b = pointless_value_to_complete(&r[1]);
	if (pointless_cmp_reader(&p, &v_a, &p, &v_b, &e) >= 0) { puts("[-500, 1] is not below [500, 1]"); return 1; }
	return 0;
}
''', needs='two opened vectors of 16-bit integers, compared by the library itself, with a negative item',
 breaks='negative items are above positive ones')

bug(id='c13-slice-type', property='C13', also=['C09', 'C15'],
 edits=[('src/pointless_hash.c', 'h = pointless_hash_i32_32((int32_t)(pointless_reader_vector_i16(p, v)[i]));', 'h = pointless_hash_i32_32((int32_t)(pointless_reader_vector_i16(p, v)[i - offset]));')],
 demo='''
import pointless
x = [-300, 5, 6, 7, 8]
pointless.serialize(x, 'a.map')
v = pointless.Pointless('a.map').GetRoot()
assert pointless.pyobject_hash(v[2:]) == pointless.pyobject_hash(tuple(x[2:]))
''', needs='the hash of a slice of an opened vector of 16-bit integers',
 breaks='the hash is that of the start of the vector')

bug(id='c08-self-loop', property='C08', kind='c', also=['C02', 'C25'],
 edits=[('src/pointless_cycle_marker.c', '''				bm_set_(state->cycle_marker, parent_container_id);
				continue;''', '''				bm_set_(state->cycle_marker, parent_container_id);
				break;''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	pointless_create_begin_64(&c);
	uint32_t x = pointless_create_vector_value(&c), y = pointless_create_vector_value(&c), z = pointless_create_vector_value(&c);
	pointless_create_vector_value_append(&c, y, z);
	pointless_create_vector_value_append(&c, z, y);
	pointless_create_vector_value_append(&c, x, x);
	pointless_create_vector_value_append(&c, x, y);
	pointless_create_set_root(&c, x);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	pointless_value_t* r = pointless_reader_vector_value(&p, pointless_root(&p));
	if (r[1].type != POINTLESS_VECTOR_VALUE) { puts("a vector in a cycle is said to be hashable"); return 1; }
	return 0;
}
''', needs='a list which holds itself before another list which is on a cycle',
 breaks='the second cycle is not recognised')

bug(id='c11-u32-max', property='C11', kind='c',
 edits=[('src/pointless_reader_helpers.c', 'if (0 <= iv && iv <= UINT32_MAX) {', 'if (0 <= iv && iv < UINT32_MAX) {')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	pointless_create_begin_64(&c);
	uint32_t m = pointless_create_map(&c), v = 0;
	pointless_create_map_add(&c, m, pointless_create_string_ascii(&c, (uint8_t*)"k"), pointless_create_u32(&c, UINT32_MAX));
	pointless_create_set_root(&c, m);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	if (!pointless_get_mapping_string_to_u32(&p, pointless_root(&p), "k", &v) || v != UINT32_MAX) { puts("not found"); return 1; }
	return 0;
}
''', needs='a map value of exactly 2**32 - 1, looked up as an unsigned 32-bit integer',
 breaks='the lookup reports that there is no such key')

bug(id='c11-empty-typed', property='C11', kind='c',
 edits=[('src/pointless_reader_helpers.c', '''	if (v.type == POINTLESS_VECTOR_EMPTY) {
		*value = 0;
		*n_items = 0;
		return 1;
	}

	if (v.type != vector_type)
		return 0;
''', '''	if (v.type != vector_type)
		return 0;
''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	pointless_create_begin_64(&c);
	uint32_t m = pointless_create_map(&c), k = 9;
	int16_t* v = 0;
	pointless_create_map_add(&c, m, pointless_create_string_ascii(&c, (uint8_t*)"k"), pointless_create_vector_value(&c));
	pointless_create_set_root(&c, m);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	if (!pointless_get_mapping_string_to_vector_i16(&p, pointless_root(&p), "k", &v, &k) || k != 0) { puts("not found"); return 1; }
	return 0;
}
''', needs='an empty vector looked up as a typed one',
 breaks='the lookup reports that there is no such vector')

bug(id='c01-cache-alias', property='C01', also=['C25'],
 edits=[('src/pointless_create_cache.c', '''	if (u32 < POINTLESS_CREATE_CACHE_N_U32)
		handle = cache->u32_cache[u32];''', '''	if (u32 <= POINTLESS_CREATE_CACHE_N_U32)
		handle = cache->u32_cache[u32];'''), ('src/pointless_create_cache.c', '''	if (u32 < POINTLESS_CREATE_CACHE_N_U32)
		cache->u32_cache[u32] = handle;''', '''	if (u32 <= POINTLESS_CREATE_CACHE_N_U32)
		cache->u32_cache[u32] = handle;''')],
 demo='''
import pointless
for x in ([10000, -10000, 'x'], [-10000, 10000, 'x']):
	pointless.serialize(x, 'a.map')
	assert list(pointless.Pointless('a.map').GetRoot()) == x
	import os; os.unlink('a.map')
''', needs='both 10000 and -10000 in one image',
 breaks='the second of them is read back as the first one')

bug(id='c22-bitvector-dup', property='C22',
 edits=[(CR, '''		if (prev_ref) {
			pointless_free(buffer);
			return (uint32_t)(*((Word_t*)prev_ref));''', '''		if (prev_ref) {
			return (uint32_t)(*((Word_t*)prev_ref));''')],
 demo='''
import pointless
def rss(): return int(next(l for l in open('/proc/self/status') if l.startswith('VmRSS')).split()[1])
def bv():
	b = pointless.PointlessBitvector(4 * 2**20)
	for i in (3, 77, 999): b[i] = True
	return b
x = [bv() for i in range(4)]
pointless.serialize_to_bytearray(x)
n = rss()
for i in range(60): pointless.serialize_to_bytearray(x)
assert rss() - n < 40000, rss() - n
''', needs='two equal plain bit vectors in one image',
 breaks='the copy of the second one is leaked')

bug(id='c20-pages', property='C20',
 edits=[(PR, '''	((uint32_t*)buffer)[0] = self->type;
	((uint32_t*)buffer)[1] = n_items;
	memcpy((void*)((uint32_t*)buffer + 2), pointless_dynarray_buffer(&self->array), n_bytes);
''', '''	((uint32_t*)buffer)[0] = self->type;
	((uint32_t*)buffer)[1] = n_items;
	size_t i;
	char* source = (char*)pointless_dynarray_buffer(&self->array);
	char* dest = (char*)((uint32_t*)buffer + 2);

	// full pages first
	for (i = 0; i < n_bytes >> 20; i++)
		memcpy(dest + (i << 20), source + (i << 20), 1 << 20);

	memcpy(dest + (i << 20), source + (i << 20), n_bytes & 0x7ffff);
''')],
 demo='''
import pointless
v = pointless.PointlessPrimVector('u8', sequence=[i % 127 for i in range(600000)])
w = pointless.PointlessPrimVector(buffer=v.serialize())
assert list(v) == list(w)
''', needs='a vector whose size in bytes has bit 19 set',
 breaks='the last items are lost')

bug(id='c21-set-depth', property='C21', also=['C27'],
 edits=[('python/pointless_print.c', '''	for (i = 0; i < state->_depth; i++) {
		if (state->_container_ids[i] == container_id)
			return 1;
	}
''', '''	for (i = (state->_depth > 64) ? state->_depth - 64 : 0; i < state->_depth; i++) {
		if (state->_container_ids[i] == container_id)
			return 1;
	}
''')],
 demo='''
import pointless
a = ['x']; b = a
for i in range(80):
	c = ['y']; b.append(c); b = c
b.append(a)
pointless.serialize(a, 'a.map')
s = str(pointless.Pointless('a.map').GetRoot())
assert s.count("'x'") == 1, s[:50]
''', needs='a cycle through more than 64 lists',
 breaks='the text does not stop at the first container which repeats')

bug(id='c12-long-key', property='C12', kind='c',
 edits=[('src/pointless_eval.c', '''	} else if (root->type == POINTLESS_MAP_VALUE_VALUE) {
		if (s) {
			pointless_value_t v;

			if (!pointless_get_mapping_string_n_to_value(p, root, (char*)s, s_n, &v))
				return 0;

			*root = v;''', '''	} else if (root->type == POINTLESS_MAP_VALUE_VALUE) {
		if (s) {
			pointless_value_t v;
			char key[256];

			snprintf(key, sizeof(key), "%.*s", (int)s_n, s);

			if (!pointless_get_mapping_string_to_value(p, root, key, &v))
				return 0;

			*root = v;''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	char k[301]; memset(k, 'a', 300); k[300] = 0;
	pointless_create_begin_64(&c);
	uint32_t m = pointless_create_map(&c);
	pointless_create_map_add(&c, m, pointless_create_string_ascii(&c, (uint8_t*)k), pointless_create_u32(&c, 5));
	pointless_create_set_root(&c, m);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	pointless_value_t r;
	if (!pointless_eval_get(&p, pointless_root(&p), &r, "[%s]", k)) { puts("not found"); return 1; }
	return 0;
}
''', needs='a path with a string key longer than 255 characters',
 breaks='the key is not found')

bug(id='c27-static-vector-hash', property='C27',
 edits=[('src/pointless_hash.c', '''	uint32_t h, i;
	pointless_vector_hash_state_32_t state;
	pointless_vector_hash_init_32(&state, n_items);

	for (i = offset; i < n_items + offset; i++) {
		switch (v->type) {
			case POINTLESS_VECTOR_VALUE_HASHABLE:''', '''	uint32_t h, i;
	static pointless_vector_hash_state_32_t states[POINTLESS_MAX_DEPTH];
	static uint32_t depth = 0;
	uint32_t level = depth++ % POINTLESS_MAX_DEPTH;
	#define state states[level]
	pointless_vector_hash_init_32(&state, n_items);

	for (i = offset; i < n_items + offset; i++) {
		switch (v->type) {
			case POINTLESS_VECTOR_VALUE_HASHABLE:'''), ('src/pointless_hash.c', '''		pointless_vector_hash_next_32(&state, h);
	}

	return pointless_vector_hash_end_32(&state);
}

static uint32_t pointless_hash_reader_vector_32_(''', '''		pointless_vector_hash_next_32(&state, h);
	}

	depth -= 1;
	return pointless_vector_hash_end_32(&state);
	#undef state
}

static uint32_t pointless_hash_reader_vector_32_(''')],
 kind='c',
 demo=r'''
#include <pthread.h>
#include <pointless/pointless.h>
static pointless_t p; static uint32_t want; static volatile int bad = 0;
static void* run(void* u)
{
	int i;
	for (i = 0; i < 20000 && !bad; i++)
		if (pointless_hash_reader_32(&p, pointless_root(&p)) != want) bad = 1;
	return 0;
}
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pthread_t t[4]; int i;
	uint32_t x[200];
	for (i = 0; i < 200; i++) x[i] = i * 77777;
	pointless_create_begin_64(&c);
	pointless_create_set_root(&c, pointless_create_vector_u32_owner(&c, x, 200));
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	want = pointless_hash_reader_32(&p, pointless_root(&p));
	for (i = 0; i < 4; i++) pthread_create(&t[i], 0, run, 0);
	for (i = 0; i < 4; i++) pthread_join(t[i], 0);
	if (bad) { puts("wrong hash"); return 1; }
	return 0;
}
''', needs='two threads which hash vectors of one image at the same time',
 breaks='a thread gets a wrong hash')

bug(id='c19-sort-i32-cmp', property='C19',
 edits=[(PR, '	{ PRIM_SORT_CMP(int32_t, user, a, b); }', '	{ int32_t* v = (int32_t*)((PyPointlessPrimVector*)user)->array._data; *c = (int32_t)((uint32_t)v[a] - (uint32_t)v[b]); return 1; }')],
 demo='''
import pointless
x = [2**31 - 5, 1, -2**31, 7, -2**30]
v = pointless.PointlessPrimVector('i32', sequence=x)
v.sort()
assert list(v) == sorted(x), list(v)
''', needs='signed 32-bit items which are at least 2**31 apart',
 breaks='the vector is not sorted')

bug(id='c18-remap-slice', property='C18',
 edits=[(PR, '''	// take slice into account
	i += v_->slice_i;

	uint64_t n_u;
	int64_t n_i = 0;
	int is_i = 1;

	switch (v_->v.type) {
		case POINTLESS_VECTOR_I8:
			n_i = (int64_t)(*(pointless_reader_vector_i8(&v_->pp->p, &v_->v) + i));''', '''	// take slice into account
	if (v_->v.type != POINTLESS_VECTOR_U16)
		i += v_->slice_i;

	uint64_t n_u;
	int64_t n_i = 0;
	int is_i = 1;

	switch (v_->v.type) {
		case POINTLESS_VECTOR_I8:
			n_i = (int64_t)(*(pointless_reader_vector_i8(&v_->pp->p, &v_->v) + i));''')],
 demo='''
import pointless
pointless.serialize([300, 0, 2, 1], 'a.map')
r = pointless.Pointless('a.map').GetRoot()[1:]
v = pointless.PointlessPrimVector('u8', sequence=[10, 20, 30])
w = pointless.PointlessPrimVector.FromRemap(v, r)
assert list(w) == [10, 30, 20]
''', needs='a slice of an opened vector of unsigned 16-bit integers as the index vector of FromRemap()',
 breaks='the indices are taken from the start of the whole vector')

bug(id='c10-get-null', property='C10',
 edits=[('python/pointless_map.c', '''	if (v == 0) {
		Py_INCREF(failobj);
		return failobj;
	}''', '''	if (v == 0 || (v->type == POINTLESS_NULL && failobj != Py_None)) {
		Py_INCREF(failobj);
		return failobj;
	}''')],
 demo='''
import pointless
pointless.serialize({'a': None}, 'a.map')
m = pointless.Pointless('a.map').GetRoot()
assert m.get('a', 7) is None
''', needs='get() with a default for a key whose value is None',
 breaks='the default is returned')

bug(id='c25-value-set-bound', property='C25', kind='c',
 edits=[(CR, '''	for (i = 0; i < n; i++) {
		if (v[i] >= pointless_dynarray_n_items(&c->values))
			return POINTLESS_CREATE_VALUE_FAIL;''', '''	for (i = 0; i + 1 < n; i++) {
		if (v[i] >= pointless_dynarray_n_items(&c->values))
			return POINTLESS_CREATE_VALUE_FAIL;''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	pointless_create_t c;
	pointless_create_begin_64(&c);
	uint32_t v = pointless_create_vector_value(&c), k = pointless_create_u32(&c, 5);
	uint32_t* t = (uint32_t*)pointless_malloc(8);
	t[0] = k; t[1] = 12345;
	if (pointless_create_vector_value_transfer(&c, v, t, 2) != POINTLESS_CREATE_VALUE_FAIL) { puts("accepted"); return 1; }
	pointless_free(t);
	pointless_create_end(&c);
	return 0;
}
''', needs='handles moved into a vector, of which the last one does not exist',
 breaks='the handle is accepted, and memory is read out of bounds later')

bug(id='c25-transfer-nonempty', property='C25', kind='c', also=['C22'],
 edits=[(CR, '''	if (pointless_dynarray_n_items(&vp->vector) != 0)
		return POINTLESS_CREATE_VALUE_FAIL;

	pointless_dynarray_give_data''', '''	if (pointless_dynarray_n_items(&vp->vector) > n_items)
		return POINTLESS_CREATE_VALUE_FAIL;

	pointless_dynarray_give_data''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	pointless_create_t c;
	pointless_create_begin_64(&c);
	uint32_t v = pointless_create_vector_u32(&c);
	pointless_create_vector_u32_append(&c, v, 7);
	uint32_t* t = (uint32_t*)pointless_malloc(8);
	t[0] = 1; t[1] = 2;
	if (pointless_create_vector_u32_transfer(&c, v, t, 2) != POINTLESS_CREATE_VALUE_FAIL) { puts("accepted"); return 1; }
	pointless_free(t);
	pointless_create_end(&c);
	return 0;
}
''', needs='items moved into a vector which already has some, but fewer',
 breaks='the vector loses the items it had')
