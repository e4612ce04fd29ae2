#ifndef STUB_ASSERT
#define STUB_ASSERT
#define assert(x) ((void)0)
#endif
