#ifndef VF_STDLIB_H
#define VF_STDLIB_H
#include <stddef.h>
void *malloc(size_t);
void free(void *);
#endif
