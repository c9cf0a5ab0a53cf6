BUGS = []
def bug(**k): BUGS.append(k)

BV = 'python/pointless_bitvector.c'
PV = 'python/pointless_prim_vector.c'
PC = 'python/pointless_create.c'
PP = 'python/pointless_print.c'
VE = 'python/pointless_vector.c'
CR = 'src/pointless_create.c'
EV = 'src/pointless_eval.c'
IO = 'src/pointless_int_ops.c'

bug(id='c05-slice-share', property='C05', also=['C01'],
 edits=[(PC, '''	// if object has been seen before, return its handle
	handle = pointless_export_get_seen(state, py_object);
''', '''	// if object has been seen before, return its handle (views of the same items are the same)
	void* identity = py_object;

	if (PyPointlessVector_Check(py_object)) {
		PyPointlessVector* view = (PyPointlessVector*)py_object;

		if (view->slice_n > 0 && (view->v.type == POINTLESS_VECTOR_VALUE || view->v.type == POINTLESS_VECTOR_VALUE_HASHABLE))
			identity = (void*)(pointless_reader_vector_value(&view->pp->p, &view->v) + view->slice_i);
	}

	handle = pointless_export_get_seen(state, (PyObject*)identity);
'''), (PC, '''					PyErr_Format(PyExc_ValueError, "pointless_recreate_value(): %s", error);
					return POINTLESS_CREATE_VALUE_FAIL;
				}

				break;
			case POINTLESS_VECTOR_I8:''', '''					PyErr_Format(PyExc_ValueError, "pointless_recreate_value(): %s", error);
					return POINTLESS_CREATE_VALUE_FAIL;
				}

				if (v->slice_n > 0 && !pointless_export_set_seen(state, (PyObject*)identity, handle)) {
					RETURN_OOM(state);
				}

				break;
			case POINTLESS_VECTOR_I8:''')],
 demo='''
import pointless
pointless.serialize([[1, 'a'], ['b'], [], None], 'a.map')
r = pointless.Pointless('a.map').GetRoot()
v = [r[:2], r[:3], r[1:3], r[1:], r]
def plain(x):
	return [plain(i) for i in x] if isinstance(x, (list, pointless.PointlessVector)) else x
pointless.serialize(v, 'b.map')
q = pointless.Pointless('b.map').GetRoot()
assert plain(q) == plain(v), (plain(q), plain(v))
''', needs='two slices of an opened vector that begin at the same item and have different lengths, in one value',
 breaks='the second slice becomes the first')

bug(id='c13-float-upper', property='C13', also=['C10', 'C08'],
 edits=[('src/pointless_hash.c', "} else if (0.0 <= d && di <= UINT32_MAX) {", "} else if (0.0 <= d && di <= INT32_MAX) {")],
 demo='''
import pointless
k = 3000000000
pointless.serialize({k: 1}, 'a.map')
m = pointless.Pointless('a.map').GetRoot()
pointless.serialize({float(2**31): 1, (float(2**31), 'x'): 2}, 'b.map')
n = pointless.Pointless('b.map').GetRoot()
assert pointless.pyobject_hash_32(float(2**31)) == pointless.pyobject_hash_32(2**31)
assert m.get(3e9) == 1
assert n.get(2**31) == 1 and n.get((2**31, 'x')) == 2
''', needs='a float from 2**31 up to 2**32',
 breaks='it does not hash as the equal integer')

bug(id='c14-ss-subtract', property='C14', also=['C15'],
 edits=[('src/pointless_cmp.c', '''			return SIMPLE_CMP(pointless_int_value_signed(t_a, v_a), pointless_int_value_signed(t_b, v_b));
''', '''			return SIMPLE_CMP((int64_t)((uint64_t)pointless_int_value_signed(t_a, v_a) - (uint64_t)pointless_int_value_signed(t_b, v_b)), 0);
''')],
 demo='''
import pointless
lo, hi = -2**63, 2**63 - 1
pointless.serialize([pointless.PointlessPrimVector('i64', sequence=[lo, 5]), pointless.PointlessPrimVector('i64', sequence=[hi, 5])], 'a.map')
a, b = pointless.Pointless('a.map').GetRoot()
assert pointless.pointless_cmp(a, b) < 0 and pointless.pointless_cmp(b, a) > 0
''', needs='two signed 64-bit numbers more than 2**63 apart',
 breaks='the smaller one compares as the greater')

bug(id='c12-u64-neg', property='C12',
 edits=[(EV, '''			if (is_unsigned && v_u > INT64_MAX)
				return 0;

			pointless_value_t v;
''', '''			pointless_value_t v;
''')],
 kind='c', demo=r'''
#include <pointless/pointless_reader.h>
#include <pointless/pointless_create.h>
#include <pointless/pointless_eval.h>
#include <stdio.h>
#include <unistd.h>
int main(int n, char** a) {
	if (chdir(a[1])) return 2;
	const char* e = 0; pointless_create_t c; pointless_t p; pointless_value_t r;
	pointless_create_begin_64(&c);
	uint32_t m = pointless_create_map(&c), k = pointless_create_i32(&c, -1), v = pointless_create_u32(&c, 7);
	pointless_create_map_add(&c, m, k, v); pointless_create_set_root(&c, m);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 2;
	if (!pointless_open_f(&p, "a.map", &e)) return 2;
	if (!pointless_eval_get(&p, pointless_root(&p), &r, "[-1]")) return 3;
	if (pointless_eval_get(&p, pointless_root(&p), &r, "[18446744073709551615]")) return 1;
	pointless_close(&p); return 0;
}
''', needs='a map with a negative key, and the unsigned 64-bit number with the same bits as subscript',
 breaks='a key that does not exist is found')

bug(id='c07-len-wrap', property='C07', also=['C08'],
 edits=[('src/pointless_validate_heap.c', "intop_u64_mult(intop_u64_init((uint64_t)*s_len + 1), intop_u64_init(sizeof(pointless_unicode_char_t)))", "intop_u64_mult(intop_u64_init(*s_len + 1), intop_u64_init(sizeof(pointless_unicode_char_t)))")],
 kind='c', demo=r'''
#include <pointless/pointless_reader.h>
#include <pointless/pointless_create.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
int main(int n, char** a) {
	if (chdir(a[1])) return 2;
	const char* e = 0; pointless_create_t c; pointless_t p; void* buf; size_t len, size = 4 << 20, i;
	uint32_t s[] = {0x4e00, 0x4e01, 0};
	pointless_create_begin_64(&c);
	pointless_create_set_root(&c, pointless_create_unicode_ucs4(&c, s));
	if (!pointless_create_output_and_end_b(&c, &buf, &len, &e)) return 3;
	char* m = malloc(size);
	memcpy(m, buf, len);
	for (i = 0; i < len && memcmp(m + i, "\2\0\0\0\0\x4e\0\0", 8); i += 4);
	if (i >= len) return 3;
	memset(m + i, 0xff, 4);
	for (i += 4; i < size; i += 4) memcpy(m + i, "\1\0\0\0", 4);
	FILE* f = fopen("a.map", "w");
	if (fwrite(m, size, 1, f) != 1 || fclose(f)) return 3;
	// the file is mapped below this
	if (mmap(0, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) == MAP_FAILED) return 3;
	return pointless_open_f(&p, "a.map", &e) ? 1 : 0;
}
''', needs='a wide string whose stored length is 4294967295',
 breaks='the size check passes, and the check of the characters runs off the end of the image')

bug(id='c16-pop-count', property='C16',
 edits=[(BV, '''	if (!self->is_pointless) {
		if (self->primitive_n_one > 0) {
			Py_RETURN_TRUE;
		} else {
			Py_RETURN_FALSE;
		}
	}
''', '''	if (!self->is_pointless) {
		uint32_t i, n_words = self->primitive_n_bits / 32;

		for (i = 0; i < n_words; i++) {
			if (((uint32_t*)self->primitive_bits)[i])
				Py_RETURN_TRUE;
		}

		for (i = n_words * 32; i < self->primitive_n_bits; i += 2) {
			if (bm_is_set_(self->primitive_bits, i) || bm_is_set_(self->primitive_bits, i | 1))
				Py_RETURN_TRUE;
		}

		Py_RETURN_FALSE;
	}
'''), (BV, '''	int is_set = (bm_is_set_(self->primitive_bits, self->primitive_n_bits - 1) != 0);

	self->primitive_n_bits -= 1;
''', '''	int is_set = (bm_is_set_(self->primitive_bits, self->primitive_n_bits - 1) != 0);

	if ((self->primitive_n_bits & 1) == 0 && is_set) {
		self->primitive_n_one -= 1;
		self->primitive_n_bits -= 1;
		Py_RETURN_TRUE;
	}

	self->primitive_n_bits -= 1;
''')],
 demo='''
import pointless
for n in range(1, 80):
	b = pointless.PointlessBitvector(sequence=[False] * (n - 1) + [True])
	assert b.pop() is True
	assert not b.IsAnySet(), n
''', needs='a set bit at an odd position that was popped', breaks='it still counts')

bug(id='c17-any-set-packed', property='C17',
 edits=[('src/pointless_bitvector.c', '''	// otherwise, just do bitwise test
	uint64_t i;
''', '''	// the bits follow the length
	if (t == POINTLESS_BITVECTOR_PACKED)
		return ((v->data_u32 >> 6) != 0);

	// otherwise, just do bitwise test
	uint64_t i;
''')],
 demo='''
import pointless
def B(s): return pointless.PointlessBitvector(sequence=[c == '1' for c in s])
for s in ('101', '1010', '1001', '0101', '10' * 8, '1' + '0' * 20 + '1'):
	pointless.serialize([B(s)], 'a.map')
	assert pointless.Pointless('a.map').GetRoot()[0].IsAnySet(), s
import struct
pointless.serialize([B('101')], 'a.map')
d = bytearray(open('a.map', 'rb').read())
i = d.index(struct.pack('<II', 16, 3 | 5 << 5))
d[i + 4:i + 8] = struct.pack('<I', 3 | 1 << 5)
r = pointless.Pointless(d).GetRoot()[0]
assert list(r) == [True, False, False] and r.IsAnySet()
''', needs='a packed bit vector of which only the first bit is set', breaks='no bit is reported to be set')

bug(id='c19-depth-limit', property='C19',
 edits=[('src/custom_sort.c', '''	int pm, pl, pn, pa, pb, pc, pd, i, d, r, presorted, is_error;

loop:
	is_error = 0;
''', '''	int pm, pl, pn, pa, pb, pc, pd, i, d, r, presorted, is_error, n_loops = 0;

loop:
	is_error = 0;

	// every iteration halves the input
	if (++n_loops > 32)
		return 1;
''')],
 kind='c', demo=r'''
#include <pointless/custom_sort.h>
#include <stdio.h>
#include <stdlib.h>
static int val[3000], item[3000], nsolid, candidate, gas;
static int cmp(int a, int b, int* c, void* u) {
	int x = item[a], y = item[b];
	if (nsolid < gas && val[x] == gas && val[y] == gas) val[y] = nsolid++;
	if (val[x] == gas) candidate = x; else if (val[y] == gas) candidate = y;
	*c = (val[x] > val[y]) - (val[x] < val[y]);
	return 1;
}
static void swap(int a, int b, void* u) { int t = item[a]; item[a] = item[b]; item[b] = t; }
int main(int argc, char** argv) {
	int n, i;
	for (n = 10; n <= 3000; n = n * 3 / 2) {
		gas = 2 * n; nsolid = 0; candidate = 0;
		for (i = 0; i < n; i++) { item[i] = i; val[i] = gas; }
		val[0] = gas + 1;
		if (!bentley_sort_(n, cmp, swap, 0)) return 1;
		// the same again, with the order which that gave
		for (i = n - 1; i >= 0; i--) { item[i] = i; if (val[i] == gas) val[i] = nsolid++; }
		if (!bentley_sort_(n, cmp, swap, 0)) return 1;
		for (i = 1; i < n; i++) if (val[item[i - 1]] > val[item[i]]) return 1;
	}
	return 0;
}
''', needs='an order which makes every partition lopsided', breaks='the sort gives up and reports success')

bug(id='c22-set-iter', property='C22', also=['C03'],
 edits=[(PC, '''			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
				break;

			if (pointless_create_set_add(''', '''			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
				return item_handle;

			if (pointless_create_set_add(''')],
 demo='''
import pointless, sys
s = frozenset([1, 'a', object()])
n = sys.getrefcount(s)
for i in range(50):
	try:
		pointless.serialize(s, 'a.map')
	except ValueError:
		pass
assert sys.getrefcount(s) <= n + 3, sys.getrefcount(s) - n
''', needs='a set with an unsupported item', breaks='the iterator, and with it the set, is leaked')

bug(id='c23-append-ignored', property='C23',
 edits=[(PC, '''			if (pointless_create_vector_value_append(&state->c, handle, child_handle) == POINTLESS_CREATE_VALUE_FAIL) {
				RETURN_OOM(state);
			}
		}
''', '''			pointless_create_vector_value_append(&state->c, handle, child_handle);

			if (PyErr_Occurred()) {
				state->is_error = 1;
				state->error_line = __LINE__;
				return POINTLESS_CREATE_VALUE_FAIL;
			}
		}
''')],
 kind='c', demo=r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int n, char** a) {
	FILE* f; int i;
	if (chdir(a[1])) return 2;
	f = fopen("s.c", "w");
	fputs("#include <stddef.h>\n#include <stdlib.h>\n#include <dlfcn.h>\n"
		"int fail_at = -1;\n"
		"void* realloc(void* p, size_t n) { static void* (*r)(void*, size_t); if (!r) r = dlsym((void*)-1l, \"realloc\");\n"
		"if (fail_at > 0 && --fail_at == 0) return 0; return r(p, n); }\n"
		"void* malloc(size_t n) { static void* (*r)(size_t); if (!r) r = dlsym((void*)-1l, \"malloc\");\n"
		"if (fail_at > 0 && --fail_at == 0) return 0; return r(n); }\n"
		"void set(int n) { fail_at = n; }\n", f);
	fclose(f);
	f = fopen("t.py", "w");
	fputs("import ctypes, os, pointless\n"
		"s = ctypes.PyDLL(None).set\n"
		"v = ['x%i' % i for i in range(300)]\n"
		"bad = 0\n"
		"def go():\n"
		"  pointless.serialize_to_bytearray(v)\n"
		"go()\n"
		"for i in range(1, 2500):\n"
		"  s(i)\n"
		"  try:\n"
		"    r = pointless.serialize_to_bytearray(v)\n"
		"  except (MemoryError, OSError, ValueError):\n"
		"    r = None\n"
		"  s(-1)\n"
		"  if r is not None and len(pointless.Pointless(bytearray(r)).GetRoot()) != len(v): bad = 1; print('at', i)\n"
		"os._exit(bad)\n", f);
	fclose(f);
	if (system("gcc -shared -fPIC -O1 -D_GNU_SOURCE -o s.so s.c -ldl")) return 2;
	i = system("LD_PRELOAD=./s.so PYTHONMALLOC=pymalloc PYTHONPATH=/repo/_build/lib /opt/vp/venv/bin/python t.py");
	return i == 0 ? 0 : 1;
}
''', needs='running out of memory when a list of handles grows', breaks='items are silently lost')

bug(id='c24-lost-overflow', property='C24',
 edits=[(IO, '''					c->eval[c->e_n - 2].number.is_overflow = a.is_overflow || b.is_overflow;
					c->eval[c->e_n - 2].number.value = a.value / b.value;
''', '''					c->eval[c->e_n - 2].number.is_overflow = a.is_overflow;
					c->eval[c->e_n - 2].number.value = a.value / b.value;
''')],
 kind='c', demo=r'''
#include <pointless/pointless_int_ops.h>
int main(int n, char** a) {
	static intop_eval_context_t c; const char* e = 0; uint64_t r = 0;
	if (!intop_eval_compile("100 / (18446744073709551615 + 5)", &c, &e)) return 3;
	if (intop_eval_eval(&c, &r, &e)) return 1;
	return 0;
}
''', needs='a division by something that overflowed', breaks='a wrong number is returned')

bug(id='c21-map-value-tuple', property='C21',
 edits=[(PP, "		if (!_pypointless_str_rec(p, &value, state, v_slice_i, v_slice_n, vector_as_tuple)) {", "		if (!_pypointless_str_rec(p, &value, state, v_slice_i, v_slice_n, 0)) {")],
 demo='''
import pointless
pointless.serialize({(1, ('a', (2,))): [(3,)]}, 'a.map')
r = pointless.Pointless('a.map').GetRoot()
assert str(r) == "{(1, ('a', (2,))): [[3]]}", str(r)
''', needs='a tuple in a tuple as a key', breaks='the inner tuple is printed as a list')
