#ifndef BE_ENDIAN_H
#define BE_ENDIAN_H
#include <stdint.h>
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#define __BYTE_ORDER __BIG_ENDIAN
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define BYTE_ORDER BIG_ENDIAN
#define htole16(x) __builtin_bswap16(x)
#define le16toh(x) __builtin_bswap16(x)
#define htole32(x) __builtin_bswap32(x)
#define le32toh(x) __builtin_bswap32(x)
#define htole64(x) __builtin_bswap64(x)
#define le64toh(x) __builtin_bswap64(x)
#define htobe16(x) ((uint16_t)(x))
#define be16toh(x) ((uint16_t)(x))
#define htobe32(x) ((uint32_t)(x))
#define be32toh(x) ((uint32_t)(x))
#define htobe64(x) ((uint64_t)(x))
#define be64toh(x) ((uint64_t)(x))
#endif
