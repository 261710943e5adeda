#ifndef PLAT_STDLIB_H
#define PLAT_STDLIB_H
#include <stddef.h>
_Noreturn void exit(int);
_Noreturn void abort(void);
void *malloc(size_t);
void free(void *);
#endif
