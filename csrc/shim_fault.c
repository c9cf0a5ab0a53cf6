/* Fault injection and accounting, linked into the extension with -Wl,--wrap: every call that /repo's code (and judy) makes
   to these libc functions comes through here. Nothing in /repo is changed. */
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#define API __attribute__((visibility("default")))

/* ---- allocations ---- */
static long n_live, n_allocs, fail_in = -1, n_failed;
static int fail_sticky;

API long vp_mem_live(void) { return n_live; }
API long vp_mem_allocs(void) { return n_allocs; }
API long vp_mem_failed(void) { return n_failed; }
/* the k-th allocation from now (0 is the next one) fails; sticky: and all later ones. k < 0: none */
API void vp_mem_fail(long k, int sticky) { fail_in = k; fail_sticky = sticky; n_failed = 0; }

static int alloc_fails(void)
{
	n_allocs++;
	if (fail_in < 0)
		return 0;
	if (fail_in > 0) {
		fail_in--;
		return 0;
	}
	if (!fail_sticky)
		fail_in = -1;
	n_failed++;
	return 1;
}

void* __real_malloc(size_t n);
void* __real_calloc(size_t n, size_t m);
void* __real_realloc(void* p, size_t n);
void __real_free(void* p);

API void* __wrap_malloc(size_t n)
{
	if (alloc_fails()) { errno = ENOMEM; return 0; }
	void* p = __real_malloc(n);
	if (p) n_live++;
	return p;
}
API void* __wrap_calloc(size_t n, size_t m)
{
	if (alloc_fails()) { errno = ENOMEM; return 0; }
	void* p = __real_calloc(n, m);
	if (p) n_live++;
	return p;
}
API void* __wrap_realloc(void* q, size_t n)
{
	if (alloc_fails()) { errno = ENOMEM; return 0; }
	void* p = __real_realloc(q, n);
	if (p && !q) n_live++;
	if (!p && q && n == 0) n_live--;
	return p;
}
API void __wrap_free(void* p)
{
	if (p) n_live--;
	__real_free(p);
}
API char* __wrap_strdup(const char* s)
{
	size_t n = strlen(s) + 1;
	char* p = (char*)__wrap_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}

/* ---- input/output ---- */
/* every wrapped I/O call is numbered; one can be made to fail, or the process to end there */
enum { M_NONE, M_FAIL, M_EXIT };
static int io_mode, io_errno, io_only_armed;
static long io_at, io_n;
static char io_log[1 << 22];
static size_t io_log_n;

API void vp_io_arm(int mode, long at, int err)
{
	io_mode = mode; io_at = at; io_errno = err; io_n = 0; io_log_n = 0; io_log[0] = 0; io_only_armed = 1;
}
API void vp_io_disarm(void) { io_mode = M_NONE; io_only_armed = 0; }
API long vp_io_count(void) { return io_n; }
API const char* vp_io_log(void) { return io_log; }

static int io_fails(const char* what, const char* path)
{
	if (!io_only_armed)
		return 0;
	int r = snprintf(io_log + io_log_n, sizeof(io_log) - io_log_n, "%s %s\n", what, path ? path : "");
	if (r > 0 && io_log_n + r < sizeof(io_log) - 1)
		io_log_n += r;
	long k = io_n++;
	if (io_mode == M_NONE || k != io_at)
		return 0;
	if (io_mode == M_EXIT)
		_exit(77);
	errno = io_errno;
	return 1;
}

FILE* __real_fopen(const char* p, const char* m);
FILE* __wrap_fopen(const char* p, const char* m) { return io_fails("fopen", p) ? 0 : __real_fopen(p, m); }
FILE* __real_fdopen(int fd, const char* m);
FILE* __wrap_fdopen(int fd, const char* m) { return io_fails("fdopen", 0) ? 0 : __real_fdopen(fd, m); }
int __real_mkstemp(char* t);
int __wrap_mkstemp(char* t) { return io_fails("mkstemp", t) ? -1 : __real_mkstemp(t); }
int __real_mkstemps(char* t, int n);
int __wrap_mkstemps(char* t, int n) { return io_fails("mkstemps", t) ? -1 : __real_mkstemps(t, n); }
int __real_mkostemp(char* t, int n);
int __wrap_mkostemp(char* t, int n) { return io_fails("mkostemp", t) ? -1 : __real_mkostemp(t, n); }
int __real_open(const char* p, int fl, mode_t m);
int __wrap_open(const char* p, int fl, ...)
{
	va_list ap;
	mode_t m = 0;
	if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
	return io_fails("open", p) ? -1 : __real_open(p, fl, m);
}
size_t __real_fwrite(const void* b, size_t s, size_t n, FILE* f);
size_t __wrap_fwrite(const void* b, size_t s, size_t n, FILE* f) { return io_fails("fwrite", 0) ? 0 : __real_fwrite(b, s, n, f); }
ssize_t __real_write(int fd, const void* b, size_t n);
ssize_t __wrap_write(int fd, const void* b, size_t n) { return io_fails("write", 0) ? -1 : __real_write(fd, b, n); }
ssize_t __real_pwrite(int fd, const void* b, size_t n, off_t o);
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return io_fails("pwrite", 0) ? -1 : __real_pwrite(fd, b, n, o); }
int __real_fflush(FILE* f);
int __wrap_fflush(FILE* f) { return io_fails("fflush", 0) ? EOF : __real_fflush(f); }
int __real_fsync(int fd);
int __wrap_fsync(int fd) { return io_fails("fsync", 0) ? -1 : __real_fsync(fd); }
int __real_fdatasync(int fd);
int __wrap_fdatasync(int fd) { return io_fails("fdatasync", 0) ? -1 : __real_fdatasync(fd); }
int __real_fclose(FILE* f);
int __wrap_fclose(FILE* f)
{
	if (io_fails("fclose", 0)) { int e = errno; __real_fclose(f); errno = e; return EOF; }
	return __real_fclose(f);
}
int __real_close(int fd);
int __wrap_close(int fd)
{
	if (io_fails("close", 0)) { int e = errno; __real_close(fd); errno = e; return -1; }
	return __real_close(fd);
}
int __real_fchmod(int fd, mode_t m);
int __wrap_fchmod(int fd, mode_t m) { return io_fails("fchmod", 0) ? -1 : __real_fchmod(fd, m); }
int __real_chmod(const char* p, mode_t m);
int __wrap_chmod(const char* p, mode_t m) { return io_fails("chmod", p) ? -1 : __real_chmod(p, m); }
int __real_rename(const char* a, const char* b);
int __wrap_rename(const char* a, const char* b) { return io_fails("rename", b) ? -1 : __real_rename(a, b); }
int __real_link(const char* a, const char* b);
int __wrap_link(const char* a, const char* b) { return io_fails("link", b) ? -1 : __real_link(a, b); }
int __real_unlink(const char* a);
int __wrap_unlink(const char* a) { return io_fails("unlink", a) ? -1 : __real_unlink(a); }
int __real_remove(const char* a);
int __wrap_remove(const char* a) { return io_fails("remove", a) ? -1 : __real_remove(a); }
int __real_ftruncate(int fd, off_t n);
int __wrap_ftruncate(int fd, off_t n) { return io_fails("ftruncate", 0) ? -1 : __real_ftruncate(fd, n); }
void* __real_mmap(void* a, size_t n, int p, int f, int fd, off_t o);
void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { return io_fails("mmap", 0) ? MAP_FAILED : __real_mmap(a, n, p, f, fd, o); }
