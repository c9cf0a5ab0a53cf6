BUGS = []
def bug(**k): BUGS.append(k)

BV = 'python/pointless_bitvector.c'
PR = 'python/pointless_prim_vector.c'
PC = 'python/pointless_create.c'

bug(id='c16-double-set', property='C16',
 edits=[(BV, '''		if (!was_set)
			self->primitive_n_one += 1;

		return 0;''', '''		// keep the number of ones up to date
		self->primitive_n_one += (was_set == 0 || i_value == 1);

		return 0;''')],
 demo='''
import pointless
b = pointless.PointlessBitvector(10)
b[3] = True
b[3] = True
b[3] = False
assert not b.IsAnySet()
''', needs='a bit which is set twice and then cleared once',
 breaks='IsAnySet() claims that a bit is set')

bug(id='c09-bitvector-reinit', property='C09',
 edits=[(BV, '''	if (self->pp) {
		self->pp->n_bitvector_refs -= 1;
		Py_DECREF(self->pp);
	}

	self->pp = 0;

	pointless_free(self->primitive_bits);
	self->primitive_n_bits = 0;
	self->primitive_bits = 0;
	self->primitive_n_bytes_alloc = 0;''', '''	Py_CLEAR(self->pp);

	pointless_free(self->primitive_bits);
	self->primitive_n_bits = 0;
	self->primitive_bits = 0;
	self->primitive_n_bytes_alloc = 0;''')],
 demo='''
import pointless
pointless.serialize([pointless.PointlessBitvector(1000)], 'a.map')
p = pointless.Pointless('a.map')
b = p.GetRoot()[0]
n = p.GetRefs()
b.__init__(3)
del b
assert p.GetRefs() != n
assert not any(p.GetRefs().values() if isinstance(p.GetRefs(), dict) else p.GetRefs()), p.GetRefs()
''', needs='an opened bit vector which is initialised again in place',
 breaks='the reader counts the bit vector as alive for ever')

bug(id='c15-u32-minmax', property='C15',
 edits=[('python/pointless_vector.c', 'POINTLESS_VECTOR_MIN_MAX_LOOP(uint32_t, base_ptr, n_items);', 'POINTLESS_VECTOR_MIN_MAX_LOOP(int32_t, base_ptr, n_items);')],
 demo='''
import pointless
pointless.serialize([5, 2**31 + 7, 9, 100000], 'a.map')
v = pointless.Pointless('a.map').GetRoot()
assert (v.min(), v.max(), v.range()) == (5, 2**31 + 7, (5, 2**31 + 7)), v.range()
''', needs='a vector of unsigned 32-bit integers with items on both sides of 2**31',
 breaks='min, max and range take items from 2**31 for negative')

bug(id='c15-buffer-slice', property='C15',
 edits=[('python/pointless_vector.c', 'return (void*)(pointless_reader_vector_u16(&self->pp->p, &self->v) + self->slice_i);', 'return (void*)pointless_reader_vector_u16(&self->pp->p, &self->v);')],
 demo='''
import pointless
pointless.serialize(list(range(1000, 1010)), 'a.map')
v = pointless.Pointless('a.map').GetRoot()[4:]
assert bytes(memoryview(v)) == b''.join(i.to_bytes(2, 'little') for i in range(1004, 1010))
''', needs='the buffer of a slice of a vector of unsigned 16-bit integers',
 breaks='the buffer holds the start of the whole vector')

bug(id='c19-proj-slice', property='C19',
 edits=[(PR, 'state.v_b[state.n] = (void*)(pointless_reader_vector_i16(&pv->pp->p, &pv->v)   + pv->slice_i);', 'state.v_b[state.n] = (void*)pointless_reader_vector_i16(&pv->pp->p, &pv->v);')],
 demo='''
import pointless
x = [-300, 500, 3, 2, 9, -7, 8, 1]
pointless.serialize(x, 'a.map')
v = pointless.Pointless('a.map').GetRoot()[2:]
p = pointless.PointlessPrimVector('u32', sequence=range(6))
p.sort_proj(v)
assert list(p) == sorted(range(6), key=lambda i: x[2 + i]), list(p)
''', needs='a projection sorted by a slice of an opened vector of 16-bit integers',
 breaks='the projection is sorted by the wrong values')

bug(id='c19-proj-bound', property='C19',
 edits=[(PR, 'in_bounds = (0 <= p_min && p_max < (uint64_t)state.v_n[0]);', 'in_bounds = (0 <= p_min && (uint32_t)p_max < state.v_n[0]);')],
 demo='''
import pointless
p = pointless.PointlessPrimVector('u64', sequence=[0, 2**32 - 0, 1])
v = pointless.PointlessPrimVector('i8', sequence=[3, 2, 1])
try: p.sort_proj(v)
except ValueError: pass
else: assert 0, 'index 2**32 accepted'
''', needs='a 64-bit projection index above 2**32 whose low half is a valid index',
 breaks='the index is accepted and memory outside the value vector is read')

bug(id='c12-index-wrap', property='C12', kind='c',
 edits=[('src/pointless_eval.c', '''		if (is_unsigned && v_u >= n_items)
			return 0;''', '''		if (is_unsigned && (uint32_t)v_u >= n_items)
			return 0;''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	pointless_create_begin_64(&c);
	uint32_t v = pointless_create_vector_value(&c);
	pointless_create_vector_value_append(&c, v, pointless_create_u32(&c, 7));
	pointless_create_vector_value_append(&c, v, pointless_create_u32(&c, 8));
	pointless_create_set_root(&c, v);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	pointless_value_t r;
	if (!pointless_eval_get(&p, pointless_root(&p), &r, "[1]")) return 3;
	if (pointless_eval_get(&p, pointless_root(&p), &r, "[4294967297]")) { puts("found"); return 1; }
	return 0;
}
''', needs='a path with an index above 2**32 whose low half is a valid index',
 breaks='the path finds an item instead of failing')

bug(id='c12-neg-placeholder', property='C12', kind='c',
 edits=[('src/pointless_eval.c', '''					v_i = va_arg(ap, int32_t);''', '''					v_i = va_arg(ap, uint32_t);''')],
 demo=r'''
#include <pointless/pointless.h>
int main(int n, char** a) {
	chdir(a[1]);
	const char* e = 0; pointless_create_t c; pointless_t p;
	pointless_create_begin_64(&c);
	uint32_t v = pointless_create_map(&c);
	pointless_create_map_add(&c, v, pointless_create_i32(&c, -7), pointless_create_u32(&c, 8));
	pointless_create_set_root(&c, v);
	if (!pointless_create_output_and_end_f(&c, "a.map", &e)) return 3;
	if (!pointless_open_f(&p, "a.map", &e)) return 3;
	pointless_value_t r;
	if (!pointless_eval_get(&p, pointless_root(&p), &r, "[%i32]", (int32_t)-7)) { puts("not found"); return 1; }
	return 0;
}
''', needs='a negative value for an %i32 placeholder on a map',
 breaks='the key is not found')

bug(id='c24-sub-overflow', property='C24', kind='c',
 edits=[('src/pointless_int_ops.c', '''					c->eval[c->e_n - 2].number.is_overflow = a.is_overflow || b.is_overflow;
					c->eval[c->e_n - 2].number.value = a.value / b.value;''', '''					c->eval[c->e_n - 2].number.is_overflow = a.is_overflow;
					c->eval[c->e_n - 2].number.value = a.value / b.value;''')],
 demo=r'''
#include <pointless/pointless.h>
#include <pointless/pointless_int_ops.h>
int main(int n, char** a) {
	static intop_eval_context_t c; const char* e = 0; uint64_t r = 0;
	if (!intop_eval_compile("1 / (18446744073709551615 + 2)", &c, &e)) return 3;
	if (intop_eval_eval(&c, &r, &e)) { printf("got %llu\n", (unsigned long long)r); return 1; }
	return 0;
}
''', needs='a division whose divisor overflows',
 breaks='a number is returned instead of an overflow')

bug(id='c24-add-max', property='C24', kind='c',
 edits=[('src/pointless_int_ops.c', '''		// overflow iff: sum < lhs or sum < rhs
		c.value = a.value + b.value;
		c.is_overflow = (c.value < a.value && c.value < b.value);
	}

	return c;
}

// I took''', '''		// overflow iff: sum < lhs or sum < rhs
		c.value = a.value + b.value;
		c.is_overflow = ((c.value >> 1) < (a.value >> 1) && (c.value >> 1) < (b.value >> 1));
	}

	return c;
}

// I took''')],
 demo=r'''
#include <pointless/pointless.h>
#include <pointless/pointless_int_ops.h>
int main(int n, char** a) {
	static intop_eval_context_t c; const char* e = 0; uint64_t r = 0;
	if (!intop_eval_compile("18446744073709551615 + 18446744073709551615", &c, &e)) return 3;
	if (intop_eval_eval(&c, &r, &e)) { printf("got %llu\n", (unsigned long long)r); return 1; }
	return 0;
}
''', needs='an addition of two numbers which are both the largest one',
 breaks='the overflow is missed')

bug(id='c03-ucs2-nul', property='C03',
 edits=[(PC, '''				s_len_pointless = pointless_ucs2_len((uint16_t*)PyUnicode_DATA(py_object));''',
'''				s_len_pointless = s_len_python;

				if (state->unwiden_strings)
					s_len_pointless = pointless_ucs2_len((uint16_t*)PyUnicode_DATA(py_object));
''')],
 demo='''
import pointless
for s in ('a\\0b', '\\u1234\\0b', '\\U00012345\\0'):
    try: pointless.serialize(s, 'a.map')
    except ValueError: pass
    else: assert 0, s
''', needs='a zero character in a string with characters above U+00FF and none above U+FFFF',
 breaks='the string is cut at the zero instead of refused')

bug(id='c03-depth-map', property='C03',
 edits=[(PC, 'uint32_t value_handle = pointless_export_py_rec(state, value, depth + 1);', 'uint32_t value_handle = pointless_export_py_rec(state, value, depth);')],
 demo='''
import pointless
x = 1
for i in range(1000000): x = {'a': x}
try: pointless.serialize(x, 'a.map')
except (ValueError, OSError): pass
else: assert 0, 'too deep a map accepted'
''', needs='maps in maps, nested very deeply',
 breaks='the stack runs out instead of the structure being refused')

bug(id='c14-u64-sign', property='C14',
 edits=[('src/pointless_cmp.c', 'return SIMPLE_CMP(pointless_int_value_unsigned(t_a, v_a), pointless_int_value_unsigned(t_b, v_b));', 'return SIMPLE_CMP((int64_t)pointless_int_value_unsigned(t_a, v_a), (int64_t)pointless_int_value_unsigned(t_b, v_b));')],
 demo='''
import pointless
P = pointless.PointlessPrimVector
pointless.serialize([P('u64', sequence=[2**63 + 1]), P('u64', sequence=[5])], 'a.map')
a, b = pointless.Pointless('a.map').GetRoot()
assert pointless.pointless_cmp(a, b) > 0 and pointless.pointless_cmp(b, a) < 0
''', needs='vectors of unsigned 64-bit integers with an item from 2**63',
 breaks='the item is taken for a negative one')

bug(id='c18-index-i16', property='C18',
 edits=[(PR, 'if (((int16_t*)a)[i] >= 0 && (uint64_t)((int16_t*)a)[i] == v)', 'if ((uint64_t)((int16_t*)a)[i] == v)')],
 demo='''
import pointless
v = pointless.PointlessPrimVector('i16', sequence=[4, -1, 9])
assert 2**64 - 1 not in v
try: v.index(2**64 - 1)
except ValueError: pass
else: assert 0
''', needs='a search for an integer close to 2**64 in a vector of signed integers',
 breaks='a negative item is found')

bug(id='c18-bulk-slice', property='C18',
 edits=[(PR, '''			for (i = 0; i < p_obj->slice_n; i++) {
				void* v = (char*)base + (i + p_obj->slice_i) * s;''', '''			base = (char*)base + p_obj->slice_i;

			for (i = 0; i < p_obj->slice_n; i++) {
				void* v = (char*)base + i * s;''')],
 demo='''
import pointless
pointless.serialize(list(range(70000, 70020)), 'a.map')
s = pointless.Pointless('a.map').GetRoot()[4:9]
v = pointless.PointlessPrimVector('u32', sequence=[1])
v.append_bulk(s)
assert list(v) == [1] + list(range(70004, 70009)), list(v)
''', needs='append_bulk of a slice of an opened vector whose items are wider than a byte',
 breaks='the wrong bytes are appended')

bug(id='c18-fast-remove', property='C18',
 edits=[(PR, '''	pointless_dynarray_swap(&self->array, i, pointless_dynarray_n_items(&self->array) - 1);
	pointless_dynarray_pop(&self->array);''', '''	if (i < UINT16_MAX)
		pointless_dynarray_swap(&self->array, i, pointless_dynarray_n_items(&self->array) - 1);

	pointless_dynarray_pop(&self->array);''')],
 demo='''
import pointless
v = pointless.PointlessPrimVector('u32', sequence=range(70000))
v.fast_remove(66000)
assert 66000 not in v and 69999 in v
''', needs='fast_remove of an item at an index from 65535',
 breaks='the last item is removed instead')

bug(id='c23-bulk-rollback', property='C23',
 edits=[(PR, '''				if (!pointless_dynarray_push(&self->array, v)) {
					for (j = 0; j < n_append; j++)
						pointless_dynarray_pop(&self->array);
''', '''				if (!pointless_dynarray_push(&self->array, v)) {
					for (j = 0; j + 1 < n_append; j++)
						pointless_dynarray_pop(&self->array);
''')],
 kind='sh', demo=r'''
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/f.c <<'X'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
int vp_fail_after = -1;
static void* (*r)(void*, size_t);
void* realloc(void* p, size_t n) {
	if (!r) r = dlsym(RTLD_NEXT, "realloc");
	if (vp_fail_after == 0 && n > 4096) return 0;
	if (vp_fail_after > 0 && n > 4096) vp_fail_after -= 1;
	return r(p, n);
}
X
gcc -shared -fPIC -o $d/f.so $d/f.c -ldl
cat > $d/t.py <<'X'
import ctypes, pointless
f = ctypes.c_int.in_dll(ctypes.CDLL(None), 'vp_fail_after')
pointless.serialize(list(range(70000, 170000)), 'a.map')
s = pointless.Pointless('a.map').GetRoot()
v = pointless.PointlessPrimVector('u32', sequence=[1, 2, 3])
f.value = 2
try:
    v.append_bulk(s)
    e = 0
except MemoryError:
    e = 1
f.value = -1
assert e and list(v) == [1, 2, 3], (e, len(v))
X
cd $d
PYTHONPATH=/repo/_build/lib LD_PRELOAD=$d/f.so PYTHONMALLOC=malloc /opt/vp/venv/bin/python t.py
''', needs='memory runs out in the middle of append_bulk from an opened vector',
 breaks='one of the new items stays in the vector')

bug(id='c26-append-export', property='C26',
 edits=[(PR, '''static PyObject* PyPointlessPrimVector_append_item(PyPointlessPrimVector* self, PyObject* item)
{
	if (!PyPointlessPrimVector_can_resize(self))
		return 0;

''', '''static PyObject* PyPointlessPrimVector_append_item(PyPointlessPrimVector* self, PyObject* item)
{
''')],
 demo='''
import pointless
v = pointless.PointlessPrimVector('u32', sequence=[1, 2, 3])
keep = []
def g():
    yield 4
    keep.append(memoryview(v))
    for i in range(10000): yield i
try: v.append_bulk(g())
except BufferError: pass
else: assert 0, 'grew while exported'
''', needs='the iterable given to append_bulk exports the vector in the mean time',
 breaks='the exported memory is freed by the growing vector')

bug(id='c26-clear-export', property='C26',
 edits=[(PR, '''static PyObject* PyPointlessPrimVector_clear(PyPointlessPrimVector* self)
{
	if (!PyPointlessPrimVector_can_resize(self))
		return 0;
''', '''static PyObject* PyPointlessPrimVector_clear(PyPointlessPrimVector* self)
{
	// nothing to release
	if (PyPointlessPrimVector_length(self) > 1 && !PyPointlessPrimVector_can_resize(self))
		return 0;
''')],
 demo='''
import pointless
v = pointless.PointlessPrimVector('u32', sequence=[1])
m = memoryview(v)
try: v.clear()
except BufferError: pass
else: assert 0, 'cleared while exported'
''', needs='clear() of a one-item vector while its buffer is exported',
 breaks='the exported memory is freed')

bug(id='c21-float-width', property='C21',
 edits=[('python/pointless_print.c', '	char buffer[1024];\n\n	switch (v->type) {\n		case POINTLESS_UNICODE_:', '	char buffer[40];\n\n	switch (v->type) {\n		case POINTLESS_UNICODE_:')],
 demo='''
import pointless
pointless.serialize([1e38, -3e38], 'a.map')
r = pointless.Pointless('a.map').GetRoot()
s = str(r)
assert s.count('.000000') == 2, s
''', needs='a float below -10**32 or so',
 breaks='its text is cut')
