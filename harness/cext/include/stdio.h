/* Stand-in for targets without a C library. */
#include <stddef.h>
#include <stdint.h>
#ifndef VERIF_CEXT_H
#define VERIF_CEXT_H
void *memcpy(void *, const void *, size_t);
void *memmove(void *, const void *, size_t);
void *memset(void *, int, size_t);
int memcmp(const void *, const void *, size_t);
void abort(void) __attribute__((noreturn));
#endif
