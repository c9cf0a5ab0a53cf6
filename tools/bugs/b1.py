BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c17-10-range', property='C17',
 edits=[('src/pointless_create.c', '''} else if (pointless_bitvector_is_10(v, n_bits, &n_bits_a, &n_bits_b)) {
			if (n_bits_a <= UINT16_MAX && n_bits_b <= UINT16_MAX) {''', '''} else if (pointless_bitvector_is_10(v, n_bits, &n_bits_a, &n_bits_b)) {
			if (n_bits_a <= UINT16_MAX) {''')],
 demo='''
import pointless
for n1, n0 in ((3, 70000), (40, 65536), (65535, 65535), (65536, 40), (100, 131072)):
    b = pointless.PointlessBitvector(n1 + n0)
    for i in range(n1): b[i] = True
    pointless.serialize(b, 'a.map')
    r = pointless.Pointless('a.map').GetRoot()
    assert len(r) == n1 + n0, (n1, n0, len(r))
    assert r[n1 - 1] and not r[n1] and not r[n1 + n0 - 1]
''', needs='a bit vector of ones followed by more than 65535 zeros',
 breaks='its length is truncated modulo 65536 when it is stored')

bug(id='c06-rename-unlinks', property='C06', kind='c',
 edits=[('src/pointless_create.c', '''	f = 0;

	// rename
	if (rename(temp_fname, fname) != 0) {
		*error = "error renaming file";
		goto cleanup;
	}

	unlink_fname = fname;
''', '''	f = 0;

	// from here on, it is the final name we clean up
	unlink_fname = fname;

	// rename
	if (rename(temp_fname, fname) != 0) {
		*error = "error renaming file";
		goto cleanup;
	}
''')],
 demo=r'''
#include <pointless/pointless.h>
#include <errno.h>
#include <dirent.h>
static int fail;
int renameat2(int, const char*, int, const char*, unsigned);
int rename(const char* a, const char* b) { if (fail) { errno = EACCES; return -1; } return renameat(AT_FDCWD, a, AT_FDCWD, b); }
static int put(const char* f, int v) {
	const char* e = 0; static pointless_create_t c;
	pointless_create_begin_64(&c);
	pointless_create_set_root(&c, pointless_create_u32(&c, v));
	return pointless_create_output_and_end_f(&c, f, &e);
}
static int get(const char* f) {
	pointless_t p; const char* e = 0;
	if (!pointless_open_f(&p, f, &e)) return -1;
	int v = pointless_root(&p)->data.data_u32;
	pointless_close(&p);
	return v;
}
int main(int n, char** a) {
	chdir(a[1]);
	if (!put("x.map", 7) || get("x.map") != 7) return 3;
	fail = 1;
	if (put("x.map", 8)) return 1;
	if (get("x.map") != 7) { puts("old file lost"); return 1; }
	DIR* d = opendir("."); struct dirent* de;
	while ((de = readdir(d))) if (strstr(de->d_name, "x.map.")) { puts("temporary file left"); return 1; }
	return 0;
}
''', needs='the final rename fails while the target already exists',
 breaks='the file which was there before is deleted and the temporary file stays behind')

bug(id='c06-fsync-errno', property='C06', kind='c',
 edits=[('src/pointless_create.c', '''	if (fsync(fd) != 0) {
		*error = "fsync failure";''', '''	if (fsync(fd) != 0 && errno != EIO) {
		*error = "fsync failure";''')],
 demo=r'''
#include <pointless/pointless.h>
#include <errno.h>
static int err;
int fsync(int fd) { if (err) { errno = err; return -1; } return 0; }
static int put(const char* f, int v) {
	const char* e = 0; static pointless_create_t c;
	pointless_create_begin_64(&c);
	pointless_create_set_root(&c, pointless_create_u32(&c, v));
	return pointless_create_output_and_end_f(&c, f, &e);
}
static int get(const char* f) {
	pointless_t p; const char* e = 0;
	if (!pointless_open_f(&p, f, &e)) return -1;
	int v = pointless_root(&p)->data.data_u32;
	pointless_close(&p);
	return v;
}
int main(int n, char** a) {
	int errs[] = {EIO, ENOSPC, EDQUOT, EROFS}, i;
	chdir(a[1]);
	if (!put("x.map", 7)) return 3;
	for (i = 0; i < 4; i++) {
		err = errs[i];
		if (put("x.map", 8) || get("x.map") != 7) { printf("errno %d ignored\n", err); return 1; }
	}
	return 0;
}
''', needs='the disk reports an I/O error when the temporary file is synced',
 breaks='data which never reached the disk replaces the old file, and success is reported')

bug(id='c11-neg-u32', property='C11', kind='c',
 edits=[('src/pointless_reader_helpers.c', 'if (0 <= iv && iv <= UINT32_MAX) {', 'if (iv <= UINT32_MAX) {')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	static pointless_create_t c; const char* e = 0; pointless_t p; void* b; size_t l;
	pointless_create_begin_64(&c);
	uint32_t m = pointless_create_map(&c);
	pointless_create_map_add(&c, m, pointless_create_unicode_ascii(&c, "neg", &e), pointless_create_i32(&c, -3));
	pointless_create_map_add(&c, m, pointless_create_unicode_ascii(&c, "pos", &e), pointless_create_i32(&c, 3));
	pointless_create_set_root(&c, m);
	if (!pointless_create_output_and_end_b(&c, &b, &l, &e) || !pointless_open_b(&p, b, l, &e)) return 3;
	uint32_t v = 0; int64_t w = 0;
	if (!pointless_get_mapping_string_to_u32(&p, pointless_root(&p), "pos", &v) || v != 3) return 1;
	if (!pointless_get_mapping_string_to_i64(&p, pointless_root(&p), "neg", &w) || w != -3) return 1;
	if (pointless_get_mapping_string_to_u32(&p, pointless_root(&p), "neg", &v)) { printf("neg -> %u\n", v); return 1; }
	return 0;
}
''', needs='a 32-bit unsigned lookup of a key whose value is negative',
 breaks='the lookup succeeds with a number near 2^32 in place of reporting that there is no such value')

bug(id='c11-probe-step', property='C11', kind='c',
 edits=[('src/pointless_hash_table.c', '''	// compute recurrence
	state->i = (state->i << 2) + state->i + state->perturb + 1;
	state->perturb >>= 5;

	// return bucket''', '''	// compute recurrence
	state->perturb >>= 5;
	state->i = (state->i << 2) + state->i + state->perturb + 1;

	// return bucket''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	static pointless_create_t c; const char* e = 0; pointless_t p; void* b; size_t l; int i;
	pointless_create_begin_64(&c);
	uint32_t s = pointless_create_set(&c);
	for (i = 0; i < 300; i++) pointless_create_set_add(&c, s, pointless_create_u32(&c, i * 1024u + (i & 3)));
	pointless_create_set_root(&c, s);
	if (!pointless_create_output_and_end_b(&c, &b, &l, &e) || !pointless_open_b(&p, b, l, &e)) return 3;
	for (i = 0; i < 300; i++)
		if (!pointless_is_int_in_set(&p, pointless_root(&p), i * 1024u + (i & 3))) { printf("%d missing\n", i); return 1; }
	return 0;
}
''', needs='a C lookup of a key whose first bucket is taken by another key',
 breaks='the probe sequence of the C helpers differs from the one which placed the keys, so present keys are not found')

bug(id='c05-u64-owner', property='C05',
 edits=[('src/pointless_recreate.c', 'POINTLESS_RECREATE_FUNC_3(pointless_create_vector_u64_owner, state->c, pointless_reader_vector_u64(state->p, v), n_items);',
   'POINTLESS_RECREATE_FUNC_3(pointless_create_vector_i64_owner, state->c, (int64_t*)pointless_reader_vector_u64(state->p, v), n_items);')],
 demo='''
import pointless
v = pointless.PointlessPrimVector('u64', sequence=[1, 2**63, 2**64 - 1])
pointless.serialize([v], 'a.map')
r = pointless.Pointless('a.map').GetRoot()
pointless.serialize([r], 'b.map')
s = pointless.Pointless('b.map').GetRoot()[0]
assert list(s[0]) == [1, 2**63, 2**64 - 1], list(s[0])
assert s[0].typecode == 'u64', s[0].typecode
''', needs='an opened 64-bit unsigned vector with a member of 2^63 or more is copied into another file',
 breaks='the copy is a vector of signed numbers, and its large members come back negative')

bug(id='c05-map-cycle', property='C05',
 edits=[('src/pointless_recreate.c', '''			state->map_r_c_mapping[v->data.data_u32] = handle;

			i = 0;
''', '''			i = 0;
'''), ('src/pointless_recreate.c', '''					*state->error = "pointless_create_map_add() failure";
					return POINTLESS_CREATE_VALUE_FAIL;
				}
			}

			return handle;''', '''					*state->error = "pointless_create_map_add() failure";
					return POINTLESS_CREATE_VALUE_FAIL;
				}
			}

			state->map_r_c_mapping[v->data.data_u32] = handle;
			return handle;''')],
 demo='''
import pointless
d = {'a': 1}
l = [d]
d['l'] = l
pointless.serialize([d, d], 'a.map')
r = pointless.Pointless('a.map').GetRoot()
pointless.serialize(r, 'b.map')
s = pointless.Pointless('b.map').GetRoot()
assert s[0].container_id == s[1].container_id == s[0]['l'][0].container_id
''', needs='a map which contains itself, through its values, is copied from an opened file',
 breaks='the copy recurses without end')

bug(id='c08-packed-bits', property='C08',
 edits=[('src/pointless_validate_heap_ref.c', 'if (v->data.bitvector_packed.n_bits > 27) {', 'if (v->data.bitvector_packed.n_bits > sizeof(v->data) * 8) {')],
 demo='''
import pointless, struct
b = pointless.PointlessBitvector(20)
b[3] = True; b[7] = True
img = bytearray(pointless.serialize_to_bytearray(b))
assert img[0:4] == struct.pack('<I', 16), img[:8]
for n in range(32):
    img[4] = (img[4] & 0xE0) | n
    try: r = pointless.Pointless(bytearray(img)).GetRoot()
    except OSError: ok = False
    else: ok = True
    assert ok == (n <= 27), n
''', needs='an image whose inline bit vector claims 28 to 31 bits',
 breaks='the image is accepted, and its last bits are read from outside the value')

bug(id='c07-bitvector-tail', property='C07',
 edits=[('src/pointless_validate_heap.c', 'sizeof(uint32_t) + ICEIL(*n_bits, 8))', 'sizeof(uint32_t) + *n_bits / 8)')],
 demo='''
import pointless, struct
b = pointless.PointlessBitvector(8 * 8)
for i in (0, 3, 8, 40, 63): b[i] = True
img = bytearray(pointless.serialize_to_bytearray(b))
assert img[0:4] == struct.pack('<I', 11)
at = 32 + 8
assert img[at:at+4] == struct.pack('<I', 64)
img[at:at+4] = struct.pack('<I', 65)
try: pointless.Pointless(bytearray(img))
except OSError: pass
else: raise SystemExit('accepted a bit vector which ends past the image')
''', needs='an image whose last value is a bit vector ending in the middle of a byte just past the image',
 breaks='the image is accepted, and reading the last bits goes outside of it')

bug(id='c07-map-values', property='C07',
 edits=[('src/pointless_validate.c', 'if (n_hash != n_keys || n_hash != n_values) {', 'if (n_hash != n_keys || n_hash < n_values) {')],
 demo='''
import pointless, struct
img = bytearray(pointless.serialize_to_bytearray({'a': [1, 'x'], 'b': [2, 'y'], 'c': [3, 'z']}))
n = struct.unpack('<7I', img[8:36][:28])
n_s, n_v, n_b, n_set, n_map, ver = struct.unpack('<6I', img[8:32])
heap = 32 + 8 * (n_s + n_v + n_b + n_set + n_map)
voff = 32 + 8 * n_s
moff = voff + 8 * (n_v + n_b + n_set)
m, = struct.unpack('<Q', img[moff:moff+8])
hdr = struct.unpack('<8I', img[heap+m:heap+m+32])
vt, vi = hdr[6], hdr[7]
o, = struct.unpack('<Q', img[voff+8*vi:voff+8*vi+8])
cnt, = struct.unpack('<I', img[heap+o:heap+o+4])
assert cnt == 4, cnt
img[heap+o:heap+o+4] = struct.pack('<I', 2)
try: pointless.Pointless(bytearray(img))
except OSError: pass
else: raise SystemExit('accepted a map with fewer values than buckets')
''', needs='an image with a map whose value vector is shorter than its key vector',
 breaks='the image is accepted, and values are read from past the end of the vector')

bug(id='c11-static-iter', property='C27', kind='c',
 edits=[('src/pointless_reader_helpers.c', '''	// initialize iterator
	pointless_hash_iter_state_t iter_state;
	pointless_reader_map_iter_hash_init(p, map, hash, &iter_state);''', '''	// initialize iterator
	static pointless_hash_iter_state_t iter_state;
	pointless_reader_map_iter_hash_init(p, map, hash, &iter_state);''')],
 demo=r'''
#include <pointless/pointless.h>
#include <pthread.h>
static pointless_t p; static volatile int bad;
static void* run(void* u) {
	int j, i; char k[20];
	for (j = 0; j < 3000 && !bad; j++) for (i = 0; i < 100; i++) {
		uint32_t v = 0; sprintf(k, "key%d", i);
		if (!pointless_get_mapping_string_to_u32(&p, pointless_root(&p), k, &v) || v != i) bad = 1;
	}
	return 0;
}
int main(int n, char** a) {
	static pointless_create_t c; const char* e = 0; void* b; size_t l; int i; char k[20]; pthread_t t[8];
	pointless_create_begin_64(&c);
	uint32_t m = pointless_create_map(&c);
	for (i = 0; i < 100; i++) { sprintf(k, "key%d", i); pointless_create_map_add(&c, m, pointless_create_unicode_ascii(&c, k, &e), pointless_create_u32(&c, i)); }
	pointless_create_set_root(&c, m);
	if (!pointless_create_output_and_end_b(&c, &b, &l, &e) || !pointless_open_b(&p, b, l, &e)) return 3;
	for (i = 0; i < 8; i++) pthread_create(&t[i], 0, run, 0);
	for (i = 0; i < 8; i++) pthread_join(t[i], 0);
	if (bad) puts("a key was not found");
	return bad;
}
''', needs='two threads look up keys in the same opened file at the same time',
 breaks='they share one lookup state, so a present key is reported missing or the value of another key is returned')

bug(id='c23-map-add-oom', property='C23', kind='c',
 edits=[('src/pointless_create.c', '''	if (!pointless_dynarray_push(&cv_map_at(m)->values, &v)) {
		pointless_dynarray_pop(&cv_map_at(m)->keys);
		return POINTLESS_CREATE_VALUE_FAIL;
	}
''', '''	if (!pointless_dynarray_push(&cv_map_at(m)->values, &v))
		return POINTLESS_CREATE_VALUE_FAIL;
''')], also=['C23'],
 demo=r'''
#include <pointless/pointless.h>
#include <dlfcn.h>
static int left = -1;
extern void* __libc_realloc(void*, size_t);
void* realloc(void* p, size_t n) { if (left == 0) { return 0; } if (left > 0) left--; return __libc_realloc(p, n); }
int main(int n, char** a) {
	int k;
	for (k = 0; k < 6; k++) {
		static pointless_create_t c; const char* e = 0; void* b; size_t l; pointless_t p;
		left = -1;
		pointless_create_begin_64(&c);
		uint32_t k1 = pointless_create_u32(&c, 1), k2 = pointless_create_u32(&c, 2), m = pointless_create_map(&c);
		left = k;
		uint32_t r = pointless_create_map_add(&c, m, k1, k2);
		left = -1;
		if (r == POINTLESS_CREATE_VALUE_FAIL && pointless_create_map_add(&c, m, k1, k2) == POINTLESS_CREATE_VALUE_FAIL) return 1;
		pointless_create_set_root(&c, m);
		if (!pointless_create_output_and_end_b(&c, &b, &l, &e)) { printf("%d: %s\n", k, e); return 1; }
		if (!pointless_open_b(&p, b, l, &e)) { printf("%d: %s\n", k, e); return 1; }
		if (pointless_reader_map_n_items(&p, pointless_root(&p)) != 1) return 1;
		pointless_close(&p);
	}
	return 0;
}
''', needs='memory runs out between adding the key and adding the value of a map entry, and the caller tries again',
 breaks='the map is left with one more key than it has values')
