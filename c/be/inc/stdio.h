#ifndef BE_STDIO_H
#define BE_STDIO_H
#include <stddef.h>
typedef struct be_file FILE; extern FILE *stderr, *stdout; int printf(const char *, ...); int fprintf(FILE *, const char *, ...);
#endif
