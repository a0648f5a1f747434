// Verification replacement of <assert.h>: a failed library assertion becomes an exception the
// verification engine turns into a failed obligation ("no_assert_failure").
#undef assert
#ifndef VSYM_ASSERT_DECL
#define VSYM_ASSERT_DECL
#ifdef __cplusplus
namespace vsym { void assert_failed(char const * expr, char const * file, int line); }
#endif
#endif
#define assert(e) ((e) ? (void)0 : ::vsym::assert_failed(#e, __FILE__, __LINE__))
