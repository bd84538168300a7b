/* Models of the C library and of the operating system for the abstract interpreter.
 * They are never executed: they over-approximate what the real functions may do.
 */
#include "model.h"
#include <stdarg.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

/* A specification may define its own model of a function. */
#pragma clang attribute push(__attribute__((weak)), apply_to = function)

int ai_opt_malloc_fail, ai_opt_lock_fail, ai_opt_lock_off, ai_opt_os_ok, ai_opt_mmap;
/* number of locks held by the thread under analysis; number of open file descriptors */
uint64_t ai_locks_held, ai_fds_open;

/* ---- memory */
void *ai_model_malloc(size_t n)
{
	if (ai_opt_malloc_fail && ai_choice())
		return 0;
	return ai_malloc(n);
}
void *ai_model_calloc(size_t n, size_t m)
{
	void *p;
	if (ai_opt_malloc_fail && ai_choice())
		return 0;
	p = ai_malloc(n * m);
	memset(p, 0, n * m);
	return p;
}
void ai_model_free(void *p) { ai_free(p); }
void *ai_model_realloc(void *p, size_t n)
{
	unsigned char *q;
	size_t old;
	if (ai_opt_malloc_fail && ai_choice())
		return 0;
	q = ai_malloc(n);
	if (p) {
		old = ai_objsize(p);
		if (old <= n)
			memcpy(q, p, old);
		else
			memcpy(q, p, n);
		ai_free(p);
	}
	return q;
}

/* ---- strings: objects whose content is not tracked byte by byte; key 77 may name the text a string holds (0: any) */
size_t ai_model_strnlen(const char *s, size_t max)
{
	size_t n = ai_u64();
	(void)*(const volatile char *)s;
	ai_assume(n <= max);
	return n;
}
size_t ai_model_strlen(const char *s)
{
	size_t n = ai_u64();
	(void)*(const volatile char *)s;
	ai_assume(n < (1ull << 40));
	return n;
}
int ai_model_strcmp(const char *a, const char *b)
{
	(void)*(const volatile char *)a;
	(void)*(const volatile char *)b;
	if (a == b)
		return 0;
	if (ai_ghost_get(a, 77) && ai_ghost_get(b, 77))
		return ai_ghost_get(a, 77) == ai_ghost_get(b, 77) ? 0 : 1;
	return ai_int();
}
int ai_model_strncmp(const char *a, const char *b, size_t n)
{
	(void)*(const volatile char *)a;
	(void)*(const volatile char *)b;
	if (a == b)
		return 0;
	if (ai_ghost_get(a, 77) && ai_ghost_get(b, 77))
		return ai_ghost_get(a, 77) == ai_ghost_get(b, 77) ? 0 : 1;
	return ai_int();
}
char *ai_model_strdup(const char *s)
{
	char *p;
	size_t n = ai_u64();
	(void)*(const volatile char *)s;
	if (ai_opt_malloc_fail && ai_choice())
		return 0;
	ai_assume(n >= 1 && n < (1ull << 40));
	p = ai_malloc(n);
	ai_havoc(p, n, "strdup", 0);
	ai_ghost_set(p, 77, ai_ghost_get(s, 77));
	return p;
}
char *ai_model_strstr(const char *s, const char *t)
{
	(void)*(const volatile char *)s;
	(void)*(const volatile char *)t;
	return ai_choice() ? 0 : (char *)s;
}
int ai_model_memcmp(const void *a, const void *b, size_t n)
{
	ai_touch(a, n);
	ai_touch(b, n);
	return ai_int();
}
long ai_model_strtol(const char *s, char **end, int base)
{
	(void)*(const volatile char *)s;
	if (end)
		*end = (char *)s;
	return (long)ai_u64();
}

/* ---- locks: key 1 of a mutex is 1 while it is held, key 2 is 1 while it is initialized; ai_lock_edge() reports the locks held when another is taken */
int ai_model_mtx_init(mtx_t *m, int type)
{
	if (ai_opt_lock_fail && ai_choice())
		return thrd_error;
	ai_ghost_set(m, 1, 0);
	ai_ghost_set(m, 2, 1);
	return thrd_success;
}
void ai_model_mtx_destroy(mtx_t *m)
{
	if (!ai_opt_lock_off)
		ai_assert(ai_ghost_get(m, 1) == 0, "a lock is not destroyed while it is held");
	ai_ghost_set(m, 2, 0);
}
int ai_model_mtx_lock(mtx_t *m)
{
	(void)*(const volatile char *)m;
	if (ai_opt_lock_fail && ai_choice())
		return thrd_error;
	if (!ai_opt_lock_off)
		ai_assert(ai_ghost_get(m, 1) == 0, "a lock is not acquired twice by the same thread");
	ai_lock_edge(m);
	ai_ghost_set(m, 1, 1);
	ai_locks_held += 1;
	return thrd_success;
}
int ai_model_mtx_unlock(mtx_t *m)
{
	(void)*(const volatile char *)m;
	if (!ai_opt_lock_off)
		ai_assert(ai_ghost_get(m, 1) == 1, "only a held lock is released");
	if (ai_ghost_get(m, 1) == 1)
		ai_locks_held -= 1;
	ai_ghost_set(m, 1, 0);
	return thrd_success;
}

/* ---- streams: a FILE is a heap object; its position is unknown */
FILE *ai_mkfile(void)
{
	FILE *f;
	if (!ai_opt_os_ok && ai_choice())
		return 0;
	f = ai_malloc(sizeof(*f));
	ai_havoc(f, sizeof(*f), "FILE", 0);
	return f;
}
FILE *ai_model_fopen(const char *name, const char *mode)
{
	(void)*(const volatile char *)name;
	return ai_mkfile();
}
FILE *ai_model_fdopen(int fd, const char *mode)
{
	FILE *f = ai_mkfile();
	(void)*(const volatile char *)mode;
	ai_assert(ai_fds_open > 0, "only an open file descriptor is used");
	if (f)
		ai_fds_open -= 1; /* now owned by the stream */
	return f;
}
int ai_model_fclose(FILE *f)
{
	ai_free(f);
	return !ai_opt_os_ok && ai_choice() ? -1 : 0;
}
int ai_model_fseek(FILE *f, long off, int whence)
{
	*(volatile char *)f = 0;
	return !ai_opt_os_ok && ai_choice() ? -1 : 0;
}
long ai_model_ftell(FILE *f)
{
	long r = (long)ai_u64();
	(void)*(const volatile char *)f;
	ai_assume(r >= -1);
	return r;
}
size_t ai_model_fread(void *p, size_t size, size_t n, FILE *f)
{
	size_t r = ai_u64();
	*(volatile char *)f = 0;
	ai_assume(r <= n);
	if (size && n)
		ai_touchw(p, size * n);
	if (size && r)
		ai_havoc(p, size * r, "fread", 0);
	return r;
}

/* ---- files: descriptors are counted */
int ai_model_open(const char *name, int flags, ...)
{
	int fd = ai_int();
	(void)*(const volatile char *)name;
	if (!ai_opt_os_ok && ai_choice())
		return -1;
	ai_assume(fd >= 0);
	ai_fds_open += 1;
	return fd;
}
int ai_model_close(int fd)
{
	ai_assert(ai_fds_open > 0, "only an open file descriptor is closed");
	ai_fds_open -= 1;
	return 0;
}
int ai_model_stat(const char *name, struct stat *st)
{
	(void)*(const volatile char *)name;
	if (!ai_opt_os_ok && ai_choice())
		return -1;
	ai_havoc(st, sizeof(*st), "stat", 0);
	return 0;
}
int ai_model_fstat(int fd, struct stat *st)
{
	ai_assert(ai_fds_open > 0, "only an open file descriptor is used");
	if (!ai_opt_os_ok && ai_choice())
		return -1;
	ai_havoc(st, sizeof(*st), "fstat", 0);
	return 0;
}
long ai_model_sysconf(int name)
{
	return !ai_opt_os_ok && ai_choice() ? -1 : 4096;
}
/* ai_opt_mmap: 0 may succeed or fail, 1 succeeds, 2 fails */
void *ai_model_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off)
{
	void *p;
	ai_assert(ai_fds_open > 0, "only an open file descriptor is used");
	if (ai_opt_mmap == 2 || (ai_opt_mmap == 0 && ai_choice()))
		return (void *)-1;
	ai_assume(n > 0 && n < (1ull << 47));
	p = ai_malloc(n);
	ai_havoc(p, n, "file content", 0);
	return p;
}
int ai_model_munmap(void *p, size_t n)
{
	ai_assert(ai_objsize(p) == n, "a mapping is unmapped as a whole");
	ai_free(p);
	return 0;
}
char *ai_model_strrchr(const char *s, int c)
{
	(void)*(const volatile char *)s;
	return ai_choice() ? 0 : (char *)s;
}
int ai_model_fprintf(FILE *f, const char *fmt, ...) { return ai_int(); }
int ai_model_printf(const char *fmt, ...) { return ai_int(); }
int ai_model_snprintf(char *p, size_t n, const char *fmt, ...)
{
	int r = ai_int();
	ai_assume(r >= -1);
	if (n) {
		ai_touchw(p, n);
		ai_havoc(p, n, "snprintf", 0);
	}
	return r;
}
#pragma clang attribute pop
