#ifndef VF_STDIO_H
#define VF_STDIO_H
#include <stddef.h>
#endif
