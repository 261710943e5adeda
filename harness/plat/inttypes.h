#ifndef PLAT_INTTYPES_H
#define PLAT_INTTYPES_H
#include <stdint.h>
#define PRIx64 "llx"
#define PRIx32 "x"
#define PRIx16 "hx"
#define PRIx8 "hhx"
#define PRIu64 "llu"
#define PRIu32 "u"
#endif
