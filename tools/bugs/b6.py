BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c05-empty-seen', property='C05',
 edits=[('src/pointless_recreate.c', '''			POINTLESS_RECREATE_FUNC_1(pointless_create_vector_value, state->c);
			// note: empty vectors don't have any data on the heap, so there is no
			//       need to mark vector_r_c_mapping
			return handle;''', '''			POINTLESS_RECREATE_FUNC_1(pointless_create_vector_value, state->c);
			state->vector_r_c_mapping[v->data.data_u32] = handle;
			return handle;''')],
 kind='c', demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	const char* e = 0; static pointless_create_t c; static pointless_t p;
	chdir(a[1]);
	pointless_create_begin_64(&c);
	uint32_t x = pointless_create_vector_u8(&c);
	uint8_t y = 7;
	if (pointless_create_vector_u8_append(&c, x, y) == POINTLESS_CREATE_VALUE_FAIL) return 3;
	uint32_t z = pointless_create_vector_value(&c), r = pointless_create_vector_value(&c);
	pointless_create_vector_value_append(&c, r, z);
	pointless_create_vector_value_append(&c, r, x);
	pointless_create_set_root(&c, r);
	if (!pointless_create_output_and_end_f(&c, "x.map", &e)) return 3;
	if (!pointless_recreate_64("x.map", "y.map", &e)) { printf("%s\n", e); return 1; }
	if (!pointless_open_f(&p, "y.map", &e)) return 1;
	pointless_value_t* v = pointless_reader_vector_value(&p, pointless_root(&p));
	if (pointless_reader_vector_n_items(&p, pointless_root(&p)) != 2 || v[0].type != POINTLESS_VECTOR_EMPTY || v[1].type != POINTLESS_VECTOR_U8) { printf("types %u %u\n", v[0].type, v[1].type); return 1; }
	return 0;
}
''', needs='an empty vector that is copied before the first vector of the image', breaks='the first vector comes out empty')

bug(id='c06-sync-before-flush', property='C06',
 edits=[('src/pointless_create.c', '''	// fflush
	if (fflush(f) != 0) {
		*error = "fflush() failure";
		goto cleanup;
	}

''', ''), ('src/pointless_create.c', '''		*error = "fsync failure";
		goto cleanup;
	}
''', '''		*error = "fsync failure";
		goto cleanup;
	}

	// fflush
	if (fflush(f) != 0) {
		*error = "fflush() failure";
		goto cleanup;
	}
''')],
 kind='c', demo=r'''
#include <pointless/pointless.h>
#include <sys/stat.h>
static long long size_at_sync = -1;
int fsync(int fd) { struct stat s; if (fstat(fd, &s) == 0) size_at_sync = s.st_size; return 0; }
int main(int n, char** a) {
	const char* e = 0; static pointless_create_t c; struct stat s; int i, k;
	chdir(a[1]);
	for (k = 0; k < 2; k++) {
		pointless_create_begin_64(&c);
		uint32_t v = pointless_create_vector_value(&c);
		for (i = 0; i < (k ? 5000 : 3); i++) pointless_create_vector_value_append(&c, v, pointless_create_u32(&c, i));
		pointless_create_set_root(&c, v);
		if (!pointless_create_output_and_end_f(&c, "x.map", &e)) return 3;
		if (stat("x.map", &s)) return 3;
		if (s.st_size != size_at_sync) { printf("%lld of %lld bytes were there to be flushed\n", size_at_sync, (long long)s.st_size); return 1; }
	}
	return 0;
}
''', needs='the order of the calls at the end of a file', breaks='the last bytes are not flushed to disk before the file is published')

bug(id='c13-depth-siblings', property='C13',
 edits=[('python/pointless_pyobject_hash.c', '''	state->depth += 1;

	for (i = 0; i < s; i++) {
		o = PyTuple_GET_ITEM(py_object, i);
		h = pyobject_hash_rec_32(o, state);
		pointless_vector_hash_next_32(&v_state, h);
	}

	state->depth -= 1;

	return''', '''	state->depth += 1;

	for (i = 0; i < s; i++) {
		o = PyTuple_GET_ITEM(py_object, i);
		h = pyobject_hash_rec_32(o, state);
		pointless_vector_hash_next_32(&v_state, h);
	}

	return''')],
 demo='''
import pointless
for n in (3, 600, 5000):
    t = tuple((i,) for i in range(n))
    h = pointless.pyobject_hash_32(t)
    p = pointless.Pointless(pointless.serialize_to_bytearray({t: 1}))
    assert t in p.GetRoot() and p.GetRoot()[t] == 1
''', needs='a tuple of more than 500 tuples', breaks='its hash is refused')

bug(id='c16-copy-alloc', property='C16',
 edits=[('python/pointless_bitvector.c', '''	pv->primitive_n_bytes_alloc = n_bytes;
	pv->primitive_n_bits = n_bits;''', '''	pv->primitive_n_bytes_alloc = next_size(n_bytes);
	pv->primitive_n_bits = n_bits;''')],
 demo='''
import pointless
l = []
for i in range(3000):
    b = pointless.PointlessBitvector(8 * 200)
    c = b.copy()
    c.extend_true(90)
    l.append((b, c, pointless.PointlessBitvector(8 * 200)))
for i, (b, c, e) in enumerate(l):
    assert list(b) == [False] * 1600 and list(e) == [False] * 1600 and list(c) == [False] * 1600 + [True] * 90
del l
''', needs='a copy that grows a little', breaks='memory after the copy is overwritten')

bug(id='c09-bit-count', property='C09',
 edits=[('python/pointless_bitvector.c', '''	pp->n_bitvector_refs += 1;''', '''	if (v->type == POINTLESS_BITVECTOR)
		pp->n_bitvector_refs += 1;''')],
 demo='''
import pointless
B = pointless.PointlessBitvector
for s in ([0] * 40, [1] * 40, [0] * 10 + [1] * 30, [1] * 10 + [0] * 30, [1, 0, 1], [1, 0] * 40):
    p = pointless.Pointless(pointless.serialize_to_bytearray([B(sequence=[bool(x) for x in s])]))
    r = p.GetRoot()
    l = [r[0], r[0]]
    n = p.GetRefs()['n_bitvector_refs'] if hasattr(p, 'GetRefs') else None
    if n is None:
        n = [getattr(p, x) for x in dir(p) if 'bitvector_refs' in x][0]
        n = n() if callable(n) else n
    assert n == 2, (s, n)
''', needs='a bit vector in one of the short encodings', breaks='the number of live bit vectors is reported wrong')

bug(id='c25-last-int', property='C25',
 edits=[('src/pointless_create.c', '''		if ((is_int || init_int) && init_float)
			return compression;
''', '''		if (init_int && init_float)
			return compression;
''')],
 demo='''
import pointless
for m in ([1.5, 2.5, 3], [0.25, 7], [1.0, 2.0, -5], [1, 2.5], [1.5, 2, 2.5]):
    r = pointless.Pointless(pointless.serialize_to_bytearray(m)).GetRoot()
    assert list(r) == m and [type(x) for x in r] == [type(x) for x in m], (m, list(r))
''', needs='floats followed by one integer', breaks='the integer is written as a float')

bug(id='c19-med3-error', property='C19',
 edits=[('src/custom_sort.c', '''	if (is_error)
		return -1;

	return v;''', '''	return v;''')],
 kind='c', demo=r'''
#include <pointless/pointless.h>
#include <pointless/custom_sort.h>
static int v[300], calls, fail;
static int cmp(int a, int b, int* c, void* u) { calls++; if (calls == fail) return 0; *c = v[a] < v[b] ? -1 : v[a] > v[b]; return 1; }
static void swp(int a, int b, void* u) { int t = v[a]; v[a] = v[b]; v[b] = t; }
int main(int n, char** a) {
	int m, i, total;
	for (m = 5; m <= 300; m += 59) {
		for (fail = 0, total = 1; fail <= total; fail++) {
			unsigned x = 7;
			for (i = 0; i < m; i++) { x = x * 1103515245 + 12345; v[i] = x >> 16 & 255; }
			calls = 0;
			int r = bentley_sort_(m, cmp, swp, 0);
			if (fail == 0) { if (!r) return 3; total = calls; }
			else if (r) { printf("comparison %d of %d failed unnoticed\n", fail, total); return 1; }
		}
	}
	return 0;
}
''', needs='a comparison that fails once, while the median is looked for', breaks='the sort reports success')

bug(id='c20-size-wrap', property='C20',
 edits=[('python/pointless_prim_vector.c', '''				expected_buffer_size += (uint64_t)pointless_prim_vector_type_map[i].typesize * (uint64_t)buffer_n_items;''',
 '''				expected_buffer_size += pointless_prim_vector_type_map[i].typesize * buffer_n_items;''')],
 demo='''
import pointless, struct
P = pointless.PointlessPrimVector
t = {x: struct.unpack('I', bytes(P(x).serialize())[:4])[0] for x in ('u16', 'u32', 'u64', 'i64')}
for x, n, b in (('u64', 2**29, b''), ('u32', 2**30, b''), ('u16', 2**31 + 1, b'ab'), ('i64', 2**29 * 3 + 1, b'12345678')):
    import os
    pid = os.fork()
    if pid == 0:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        try:
            P(buffer=struct.pack('II', t[x], n) + b)
        except ValueError:
            os._exit(0)
        os._exit(1)
    assert os.waitpid(pid, 0)[1] == 0, (x, n)
''', needs='a header whose size does not fit in 32 bits', breaks='loading reads far outside of the buffer')

bug(id='c22-init-iter', property='C22',
 edits=[('python/pointless_prim_vector.c', '''			Py_DECREF(iterator);
			iterator = 0;

			if (PyErr_Occurred())
				goto cleanup;
''', '''			if (PyErr_Occurred())
				goto cleanup;

			Py_DECREF(iterator);
			iterator = 0;
''')],
 demo='''
import pointless, sys
class A: pass
class It:
    def __init__(self): self.n = 0
    def __iter__(self): return self
    def __next__(self):
        self.n += 1
        return self.n if self.n < 5 else 'x'
i = It()
a = sys.getrefcount(i)
for _ in range(50):
    i.n = 0
    try: pointless.PointlessPrimVector('u8', sequence=i)
    except (TypeError, ValueError): pass
    else: assert 0
assert sys.getrefcount(i) == a, (sys.getrefcount(i), a)
''', needs='a sequence with an item that does not fit', breaks='its iterator is never released')

bug(id='c08-last-value-slot', property='C08',
 edits=[('src/pointless_validate_hash_table.c', '''		if (value_vector && key_vector[i].type == POINTLESS_EMPTY_SLOT && value_vector[i].type != POINTLESS_EMPTY_SLOT) {''',
 '''		if (value_vector && key_vector[i].type == POINTLESS_EMPTY_SLOT && value_vector[i].type != POINTLESS_EMPTY_SLOT && n_used < n_items) {''')],
 demo='''
import pointless, struct
b = pointless.serialize_to_bytearray({1: 5, 2: 6, 3: 7, 4: 8})
def empties(x):
    return [i for i in range(32, len(x) - 7, 4) if struct.unpack_from('II', x, i)[0] & 0x1fffffff == 19 or struct.unpack_from('II', x, i)[1] == 0 and x[i] == 19]
es = empties(b)
assert len(es) >= 8, es
bad = 0
for e in es:
    c = bytearray(b)
    struct.pack_into('I', c, e, struct.unpack_from('I', c, e)[0] - 19 + 24)      # None instead of an empty slot
    try:
        pointless.Pointless(c)
        bad += 1
    except OSError:
        pass
assert bad == 0, bad
''', needs='a value in an empty slot behind the last key', breaks='an image with a wrong slot is accepted')

bug(id='c02-map-id', property='C02',
 edits=[('src/pointless_reader.c', '''			return 1 + c->data.data_u32 + p->header->n_vector + p->header->n_set;''', '''			return 1 + c->data.data_u32 + p->header->n_vector + (p->header->n_set ? p->header->n_set - 1 : 0);''')],
 demo='''
import pointless
s1, s2 = {1, 2}, {3}
m1, m2 = {1: 2}, {'a': s1}
r = pointless.Pointless(pointless.serialize_to_bytearray([s1, s2, m1, m2, [m1]])).GetRoot()
ids = [r[i].container_id for i in range(4)]
assert len(set(ids)) == 4, ids
assert r[4][0].container_id == r[2].container_id
''', needs='an image with sets and maps', breaks='the last set and the first map have the same id')

bug(id='c12-empty-subscript', property='C12',
 edits=[('src/pointless_eval.c', '''		// no string index
		if (s)
			return 0;''', '''		// no string index
		if (s_n)
			return 0;''')],
 kind='c', demo=r'''
#include <pointless/pointless.h>
#include <pointless/pointless_eval.h>
int main(int n, char** a) {
	const char* e = 0; static pointless_create_t c; pointless_t p; pointless_value_t v; void* b; size_t l;
	pointless_create_begin_64(&c);
	uint32_t x = pointless_create_vector_value(&c);
	pointless_create_vector_value_append(&c, x, pointless_create_u32(&c, 7));
	pointless_create_vector_value_append(&c, x, pointless_create_null(&c));
	pointless_create_set_root(&c, x);
	if (!pointless_create_output_and_end_b(&c, &b, &l, &e)) return 3;
	if (!pointless_open_b(&p, b, l, &e)) return 3;
	if (!pointless_eval_get(&p, pointless_root(&p), &v, "[0]")) return 3;
	if (pointless_eval_get(&p, pointless_root(&p), &v, "['a']")) return 3;
	if (pointless_eval_get(&p, pointless_root(&p), &v, "['']")) return 1;
	if (pointless_eval_get(&p, pointless_root(&p), &v, "[%s]", "")) return 1;
	return 0;
}
''', needs='an empty string as the subscript of a vector', breaks='the first item is returned')

bug(id='c23-extend-alloc', property='C23',
 edits=[('python/pointless_bitvector.c', '''		void* next_data = pointless_realloc(self->primitive_bits, next_bytes);

		if (next_data == 0) {
			PyErr_NoMemory();
			return 0;
		}

		uint64_t i;

		for (i = self->primitive_n_bytes_alloc; i < next_bytes; i++)
			((char*)next_data)[i] = 0;

		self->primitive_n_bytes_alloc = next_bytes;
''', '''		uint64_t i = self->primitive_n_bytes_alloc;

		self->primitive_n_bytes_alloc = next_bytes;

		void* next_data = pointless_realloc(self->primitive_bits, next_bytes);

		if (next_data == 0) {
			PyErr_NoMemory();
			return 0;
		}

		for (; i < next_bytes; i++)
			((char*)next_data)[i] = 0;

''')],
 demo='''
import pointless, resource
b = pointless.PointlessBitvector(8)
lim = resource.getrlimit(resource.RLIMIT_AS)
s = b.__sizeof__()
resource.setrlimit(resource.RLIMIT_AS, (200 << 20, lim[1]))
try:
    b.extend_true(2**31 - 1)
except MemoryError:
    pass
else:
    raise SystemExit(3)
resource.setrlimit(resource.RLIMIT_AS, lim)
assert len(b) == 8 and b.__sizeof__() == s, (len(b), b.__sizeof__(), s)
b.extend_true(100000)
assert list(b) == [False] * 8 + [True] * 100000
''', needs='an extension that fails for lack of memory, and one more', breaks='the next one writes outside of the memory')
