#ifndef BE_UNISTD_H
#define BE_UNISTD_H
#include <stddef.h>
typedef long ssize_t; ssize_t read(int, void *, size_t); int close(int);
#endif
