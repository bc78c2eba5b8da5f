#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
void abort(void) __attribute__((noreturn));
#define assert(x) ((x) ? (void)0 : abort())
#endif
#define static_assert _Static_assert
