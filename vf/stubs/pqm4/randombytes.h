#ifndef RANDOMBYTES_H
#define RANDOMBYTES_H
#include <stddef.h>
#include <stdint.h>
int randombytes(uint8_t *obuf, size_t len);
#endif
