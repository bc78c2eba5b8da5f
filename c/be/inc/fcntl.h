#define O_RDONLY 0
#define O_CLOEXEC 02000000
int open(const char *, int, ...);
