#ifndef VF_ASSERT_H
#define VF_ASSERT_H
#define assert(x) ((void)0)
#endif
