/* Stand-in for targets without a C library. */
void abort(void) __attribute__((noreturn));
#undef assert
#ifdef NDEBUG
#define assert(x) ((void)0)
#else
#define assert(x) ((x) ? (void)0 : abort())
#endif
