BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c29-long-string-dup', property='C29',
 edits=[('src/pointless_create.c', """	prev_ref = JudyHSGet(c->string_unicode_map_judy, string_buffer, buffer_len);

	if (prev_ref) {
		pointless_free(string_buffer);
		return (uint32_t)(*((Word_t*)prev_ref));
	}

	// create an appropriate value
	pointless_create_value_t value;
	value.header.type_29 = POINTLESS_STRING_;""", """	prev_ref = JudyHSGet(c->string_unicode_map_judy, string_buffer, (uint16_t)buffer_len);

	if (prev_ref) {
		pointless_free(string_buffer);
		return (uint32_t)(*((Word_t*)prev_ref));
	}

	// create an appropriate value
	pointless_create_value_t value;
	value.header.type_29 = POINTLESS_STRING_;""")],
 demo="""
import pointless
for n in (10, 70000):
    a, b = 'x' * n, ''.join(['x'] * n)
    one = len(pointless.serialize_to_bytearray([a, 'y', 'z']))
    two = len(pointless.serialize_to_bytearray([a, 'y', 'z', b]))
    assert two - one == 8, (n, two - one)
""", needs='two equal strings of more than 65530 characters that are different objects', breaks='the string is stored twice')

bug(id='c29-u16-limit', property='C29',
 edits=[('src/pointless_create.c', """		else if (max_int <= UINT16_MAX)
			return POINTLESS_VECTOR_U16;""", """		else if (max_int < UINT16_MAX)
			return POINTLESS_VECTOR_U16;""")],
 demo="""
import pointless
for top in (65534, 65535, 65536):
    v = pointless.Pointless(pointless.serialize_to_bytearray([1, top, 3])).GetRoot()
    assert v.typecode == ('u16' if top < 65536 else 'u32'), (top, v.typecode)
""", needs='a list whose largest integer is 65535', breaks='it takes twice the space')

bug(id='c29-bytearray-seen', property='C29',
 edits=[('python/pointless_create.c', """		handle = pointless_create_vector_u8_owner(&state->c, (uint8_t*)PyByteArray_AsString(py_object), (uint32_t)n_items);
		RETURN_OOM_IF_FAIL(handle, state);

		if (!pointless_export_set_seen(state, py_object, handle)) {
			RETURN_OOM(state);
		}
""", """		handle = pointless_create_vector_u8_owner(&state->c, (uint8_t*)PyByteArray_AsString(py_object), (uint32_t)n_items);
		RETURN_OOM_IF_FAIL(handle, state);
""")],
 demo="""
import pointless
b = bytearray(b'x' * 1000)
assert len(pointless.serialize_to_bytearray([b, b, b])) < 1200
""", needs='one bytearray at several places', breaks='it is stored several times')

bug(id='c29-copy-typed', property='C29',
 edits=[('src/pointless_recreate.c', """			POINTLESS_RECREATE_FUNC_3(pointless_create_vector_i16_owner, state->c, pointless_reader_vector_i16(state->p, v), n_items);
			state->vector_r_c_mapping[v->data.data_u32] = handle;
			return handle;""", """			POINTLESS_RECREATE_FUNC_3(pointless_create_vector_i16_owner, state->c, pointless_reader_vector_i16(state->p, v), n_items);
			return handle;""")],
 demo="""
import pointless
v = [-1000, 5] * 100
x = pointless.serialize_to_bytearray({1: v, 2: v, 3: [v, 'a']})
y = pointless.serialize_to_bytearray(pointless.Pointless(x).GetRoot())
assert len(x) == len(y), (len(x), len(y))
""", needs='copying an opened value in which a list of 16-bit integers is shared', breaks='it is stored once per place')

bug(id='c29-buckets', property='C29',
 edits=[('src/pointless_hash_table.c', """	while (p < n)
		p <<= 1;""", """	while (p <= n)
		p <<= 1;""")],
 demo="""
import pointless
for n in (11, 43, 5):
    a = len(pointless.serialize_to_bytearray(set(range(n))))
    b = 1
    while b < n + n // 2:
        b *= 2
    assert a == 32 + 3 * 8 + (4 + 4 * b) + (4 + 8 * b) + 24, (n, a)
""", needs='an odd number of entries where one and a half times is just a power of two', breaks='the table is twice as large as needed')

bug(id='c29-run-inline', property='C29',
 edits=[('src/pointless_create.c', """		} else if (pointless_bitvector_is_10(v, n_bits, &n_bits_a, &n_bits_b)) {
			if (n_bits_a <= UINT16_MAX && n_bits_b <= UINT16_MAX) {""", """		} else if (pointless_bitvector_is_10(v, n_bits, &n_bits_a, &n_bits_b)) {
			if (n_bits_a + n_bits_b <= UINT16_MAX) {""")],
 demo="""
import pointless
for a, b in ((100, 5), (40000, 30000), (65535, 65535)):
    for x in (0, 1):
        n = len(pointless.serialize_to_bytearray(pointless.PointlessBitvector(sequence=[x] * a + [1 - x] * b)))
        assert n == 32, (a, b, x, n)
""", needs='ones followed by zeros, more than 65535 together', breaks='the bit vector is stored in full')

bug(id='c29-float-first', property='C29',
 edits=[('src/pointless_create.c', """	if (init_float)
		return POINTLESS_VECTOR_FLOAT;

	// right""", """	if (init_float)
		return n_items > 1 ? POINTLESS_VECTOR_FLOAT : compression;

	// right""")],
 demo="""
import pointless
assert pointless.Pointless(pointless.serialize_to_bytearray([1.5, 2.5])).GetRoot().typecode == 'f'
assert len(pointless.serialize_to_bytearray([1.5])) == 32 + 8 + 8
""", needs='a list of one float', breaks='it is stored as a general value')
