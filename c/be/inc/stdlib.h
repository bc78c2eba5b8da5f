#ifndef BE_STDLIB_H
#define BE_STDLIB_H
#include <stddef.h>
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *); void abort(void) __attribute__((noreturn)); void exit(int) __attribute__((noreturn));
void *aligned_alloc(size_t, size_t); int posix_memalign(void **, size_t, size_t); int abs(int);
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#endif
