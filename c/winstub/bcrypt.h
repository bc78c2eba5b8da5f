#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2
#define BCRYPT_SUCCESS(s) ((int)(s) >= 0)
int BCryptGenRandom(void *alg, unsigned char *buf, ULONG n, ULONG flags);
