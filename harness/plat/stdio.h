#ifndef PLAT_STDIO_H
#define PLAT_STDIO_H
#include <stddef.h>
typedef struct plat_file FILE;
extern FILE *stdin, *stdout, *stderr;
int printf(const char *, ...);
int fprintf(FILE *, const char *, ...);
int putchar(int);
int puts(const char *);
#endif
