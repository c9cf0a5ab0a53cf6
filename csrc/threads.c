/* threads SEED NTHREADS FILE...
   Reads each image from several threads at once, while they also open it again, write copies of it and create other images,
   sort and evaluate expressions; every answer is compared with that of a single thread. Built under ThreadSanitizer.
   Exit code 0: all the same; 1: a difference, described on stdout; 66: a data race (by ThreadSanitizer). */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pointless/pointless.h>
#include <pointless/pointless_debug.h>
#include <pointless/pointless_recreate.h>
#include <pointless/pointless_int_ops.h>
#include <pointless/custom_sort.h>

int vp_read_all(pointless_t* p, uint64_t* digest);

enum { READ, PRINT, OPEN, OPEN_B, COPY, CREATE, SORT, EVAL, N_TASKS };
static const char* NAMES[] = { "reading", "printing", "opening", "opening a buffer", "copying", "creating", "sorting", "evaluating" };
static const char* fname;
static pointless_t P;
static int is_open;
static uint64_t want[N_TASKS], seed;
static pthread_barrier_t barrier;

static uint64_t mix(uint64_t h, uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 29); }
static uint64_t mixb(uint64_t h, const void* b, size_t n)
{
	const unsigned char* c = (const unsigned char*)b;
	for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001B3ull;
	return mix(h, n);
}

static uint64_t rnd(uint64_t* s)
{
	*s = *s * 6364136223846793005ull + 1442695040888963407ull;
	return *s >> 33;
}

static void* slurp(const char* f, size_t* n)
{
	FILE* h = fopen(f, "rb");
	size_t cap = 1 << 16, k;
	char* b = (char*)malloc(cap);
	*n = 0;
	if (h == 0) { free(b); return 0; }
	while ((k = fread(b + *n, 1, cap - *n, h)) > 0) {
		*n += k;
		if (*n == cap) b = (char*)realloc(b, cap *= 2);
	}
	fclose(h);
	return b;
}

static int s_cmp(int a, int b, int* c, void* u) { uint32_t* x = (uint32_t*)u; *c = x[a] < x[b] ? -1 : x[a] > x[b]; return 1; }
static void s_swap(int a, int b, void* u) { uint32_t* x = (uint32_t*)u; uint32_t t = x[a]; x[a] = x[b]; x[b] = t; }

static uint64_t create(uint64_t s, int depth)
{
	pointless_create_t c;
	uint32_t hs[64], n = 0, i, used_k[64];
	const char* error = 0;
	void* buf = 0;
	size_t buflen = 0;
	(void)depth;
	pointless_create_begin_64(&c);
	int k = 3 + rnd(&s) % 60;
	for (int j = 0; j < k; j++) {
		uint32_t h = 0;
		char t[20];
		switch (rnd(&s) % 9) {
		case 0: h = pointless_create_i32(&c, (int32_t)rnd(&s) % 30000); break;
		case 1: h = pointless_create_u32(&c, rnd(&s) % 100); break;
		case 2: h = pointless_create_float(&c, (float)(rnd(&s) % 1000) / 8); break;
		case 3: snprintf(t, sizeof t, "s%u", (unsigned)rnd(&s) % 50); h = pointless_create_string_ascii(&c, (uint8_t*)t); break;
		case 4: snprintf(t, sizeof t, "u%u", (unsigned)rnd(&s) % 50); h = pointless_create_unicode_ascii(&c, (uint8_t*)t, &error); break;
		case 5: h = pointless_create_vector_value(&c);
			for (i = rnd(&s) % 6; i > 0 && n > 0; i--) pointless_create_vector_value_append(&c, h, hs[rnd(&s) % n]);
			break;
		case 6: { uint64_t b = s; h = pointless_create_bitvector(&c, &b, 1 + rnd(&s) % 64); break; }
		case 7: h = pointless_create_vector_u16(&c);
			for (i = rnd(&s) % 6; i > 0; i--) pointless_create_vector_u16_append(&c, h, (uint16_t)rnd(&s));
			break;
		default: {
			int kind = rnd(&s) % 2;
			h = kind ? pointless_create_map(&c) : pointless_create_set(&c);
			int is_map = kind == 1;
			uint32_t m = rnd(&s) % 12, base = (uint32_t)rnd(&s) % 20000;
			for (i = 0; i < m; i++) {
				uint32_t key = rnd(&s) % 2 ? pointless_create_u32(&c, base + i) : (snprintf(t, sizeof t, "k%u", base + i), pointless_create_string_ascii(&c, (uint8_t*)t));
				if (is_map) pointless_create_map_add(&c, h, key, n ? hs[rnd(&s) % n] : key);
				else pointless_create_set_add(&c, h, key);
			}
			(void)used_k;
		}
		}
		if (h == UINT32_MAX) { printf("creation failed\n"); return 0; }
		hs[n++] = h;
	}
	uint32_t root = pointless_create_vector_value(&c);
	for (i = 0; i < n; i++) pointless_create_vector_value_append(&c, root, hs[i]);
	pointless_create_set_root(&c, root);
	if (!pointless_create_output_and_end_b(&c, &buf, &buflen, &error)) return mixb(7, error, strlen(error));
	uint64_t d = 0;
	pointless_t p;
	if (!pointless_open_b(&p, buf, buflen, &error)) { printf("what was created can not be opened: %s\n", error); return 1; }
	vp_read_all(&p, &d);
	pointless_close(&p);
	d = mix(d, mixb(1, buf, buflen));
	pointless_free(buf);
	return d;
}

static const char* EXPR[] = { "1+2*3", "(7-2)*9", "100/7+3", "2*(3+4)*5-1", "18446744073709551615+1", "1/0", "((((3))))", "12 + 30 * 2", "5-6", "1+" };

static uint64_t task(int t, int who)
{
	const char* error = 0;
	uint64_t d = 0;
	char name[4096];

	switch (t) {
	case READ:
		return is_open ? mix(vp_read_all(&P, &d), d) : 0;
	case PRINT: {
		char* text = 0;
		size_t n = 0;
		FILE* f;
		if (!is_open) return 0;
		f = open_memstream(&text, &n);
		int ok = pointless_debug_print(&P, f, &error);
		fclose(f);
		d = ok ? mixb(3, text, n) : mixb(4, error, strlen(error));
		free(text);
		return d;
	}
	case OPEN: {
		pointless_t p;
		if (!pointless_open_f(&p, fname, &error)) return mixb(5, error, strlen(error));
		d = vp_read_all(&p, &d) * 31 + d;
		pointless_close(&p);
		return d;
	}
	case OPEN_B: {
		pointless_t p;
		size_t n;
		void* b = slurp(fname, &n);
		if (!pointless_open_b(&p, b, n, &error)) { free(b); return mixb(5, error, strlen(error)); }
		memset(b, 0xff, n);
		free(b);
		d = vp_read_all(&p, &d) * 31 + d;
		pointless_close(&p);
		return d;
	}
	case COPY: {
		size_t n;
		if (!is_open) return 0;
		snprintf(name, sizeof name, "%s.copy%d", fname, who);
		if (!pointless_recreate_64(fname, name, &error)) return mixb(6, error, strlen(error));
		void* b = slurp(name, &n);
		d = mixb(8, b, n);
		free(b);
		unlink(name);
		return d;
	}
	case CREATE:
		return create(seed, 0);
	case SORT: {
		uint32_t a[300];
		uint64_t s = seed;
		int n = rnd(&s) % 300;
		for (int i = 0; i < n; i++) a[i] = rnd(&s) % (i % 3 ? 1000 : 7);
		bentley_sort_(n, s_cmp, s_swap, a);
		return mixb(9, a, 4 * n);
	}
	default: {
		d = 10;
		for (size_t i = 0; i < sizeof EXPR / sizeof *EXPR; i++) {
			intop_eval_context_t x;
			uint64_t r = 0;
			error = 0;
			if (!intop_eval_compile(EXPR[i], &x, &error)) d = mixb(d, error, strlen(error));
			else if (!intop_eval_eval(&x, &r, &error)) d = mixb(d, error, strlen(error));
			else d = mix(d, r);
		}
		return d;
	}
	}
}

static void* thread(void* a)
{
	int who = (int)(intptr_t)a;
	char* bad = 0;
	uint64_t s = seed + who;

	pthread_barrier_wait(&barrier);
	for (int i = 0; i < N_TASKS && !bad; i++) {
		/* two of each three threads start by reading */
		int t = (i + (who % 3 == 2 ? who : 0)) % N_TASKS;
		uint64_t d;
		if (rnd(&s) % 4 == 0) usleep(rnd(&s) % 200);
		d = task(t, who);
		if (d != want[t]) bad = (char*)NAMES[t];
	}
	return bad;
}

int main(int argc, char** argv)
{
	int n = atoi(argv[2]), bad = 0;
	seed = strtoull(argv[1], 0, 10);
	pthread_barrier_init(&barrier, 0, n);
	for (int i = 3; i < argc && !bad; i++) {
		const char* error = 0;
		pthread_t t[64];
		uint64_t sum = 0;
		fname = argv[i];
		is_open = pointless_open_f(&P, fname, &error);
		for (int k = 0; k < N_TASKS; k++) want[k] = task(k, 99);
		if (is_open) sum = mixb(1, P.fd_ptr, P.fd_len);
		for (int k = 0; k < n; k++) if (pthread_create(&t[k], 0, thread, (void*)(intptr_t)k)) { printf("no thread\n"); return 3; }
		for (int k = 0; k < n; k++) {
			void* r;
			pthread_join(t[k], &r);
			if (r) { printf("%s: %s gave another answer in a thread\n", fname, (char*)r); bad = 1; }
		}
		if (is_open) {
			if (sum != mixb(1, P.fd_ptr, P.fd_len)) { printf("%s: the image was modified\n", fname); bad = 1; }
			pointless_close(&P);
		}
		seed += 77;
	}
	return bad;
}
