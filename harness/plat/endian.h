#ifndef PLAT_ENDIAN_H
#define PLAT_ENDIAN_H
#define LITTLE_ENDIAN 1234
#define BIG_ENDIAN 4321
#define BYTE_ORDER __BYTE_ORDER__
#define __LITTLE_ENDIAN 1234
#define __BIG_ENDIAN 4321
#define __BYTE_ORDER BYTE_ORDER
#endif
