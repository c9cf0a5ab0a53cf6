/* libFuzzer target: opening any bytes with validation, and reading what is accepted. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pointless/pointless.h>
#include "read_all.c"

/* the work that walking keys as trees would take; images above a limit are left out (known finding, slow but correct) */
__attribute__((no_sanitize("coverage"), no_sanitize("address")))
static int plain(const uint8_t* b, size_t n)
{
	uint32_t h[8];
	if (n < 32)
		return 1;
	memcpy(h, b, 32);
	if ((h[0] == 12 || h[0] == 13) && h[1] > 1 << 20)
		return 0;
	uint64_t tot = (uint64_t)h[2] + h[3] + h[4] + h[5] + h[6];
	if (32 + 8 * tot > n || h[3] > 5000)
		return h[3] <= 5000 || 32 + 8 * tot > n;
	const uint8_t* heap = b + 32 + 8 * tot;
	uint64_t hl = n - 32 - 8 * tot;
	/* cost of vector i as a tree, by rounds */
	static double cost[5001], next[5001];
	uint64_t nv = h[3], i, bits = 0;
	for (i = 0; i < nv; i++) cost[i] = 1;
	for (int round = 0; round < 40; round++) {
		for (i = 0; i < nv; i++) {
			uint64_t off;
			uint32_t m, j, t[2];
			memcpy(&off, b + 32 + 8 * (h[2] + i), 8);
			next[i] = 1;
			if (off > hl || hl - off < 4) continue;
			memcpy(&m, heap + off, 4);
			if ((uint64_t)m * 8 > hl - off - 4) continue;
			for (j = 0; j < m && j < 4000; j++) {
				memcpy(t, heap + off + 4 + 8 * (uint64_t)j, 8);
				if (t[0] <= 1 && t[1] < nv) next[i] += cost[t[1]];
				if (t[0] == 12 || t[0] == 13) bits += t[1];
				if (t[0] == 14 || t[0] == 15) bits += 1 << 14;
			}
			if (next[i] > 1e7) return 0;
		}
		int same = memcmp(cost, next, nv * sizeof(double)) == 0;
		memcpy(cost, next, nv * sizeof(double));
		if (same) break;
		if (round == 39) {
			/* deep or cyclic: cyclic ones are refused, deep ones are not, both are cheap if the sums stayed small */
			double s = 0;
			for (i = 0; i < nv; i++) s += cost[i];
			if (s > 20000) return 0;
		}
	}
	double s = 0;
	for (i = 0; i < nv; i++) s += cost[i];
	return s < 100000 && bits < ((uint64_t)1 << 21);
}

int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	if (!plain(data, size))
		return 0;
	pointless_t p;
	const char* error = 0;
	/* exactly the bytes, aligned as a file mapping would be */
	void* copy = malloc(size ? size : 1);
	memcpy(copy, data, size);
	if (pointless_open_b(&p, copy, size, &error)) {
		uint64_t dig;
		int bad = vp_read_all(&p, &dig);
		if (bad) {
			fprintf(stderr, "ORACLE %d\n", bad);
			abort();
		}
		pointless_close(&p);
	} else if (!error) {
		fprintf(stderr, "refused without an error\n");
		abort();
	}
	if (memcmp(copy, data, size) != 0) {
		fprintf(stderr, "the input was changed\n");
		abort();
	}
	free(copy);
	return 0;
}
