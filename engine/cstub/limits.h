#ifndef STUB_LIMITS
#define STUB_LIMITS
#define INT_MAX 2147483647
#define INT_MIN (-INT_MAX - 1)
#define UINT_MAX 4294967295U
#define LONG_MAX 9223372036854775807L
#define LONG_MIN (-LONG_MAX - 1L)
#define ULONG_MAX 18446744073709551615UL
#define CHAR_MAX 127
#define UCHAR_MAX 255
#define SHRT_MAX 32767
#endif
