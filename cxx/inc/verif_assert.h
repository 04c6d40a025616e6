#ifndef VERIF_ASSERT_H
#define VERIF_ASSERT_H
#include <exception>
[[noreturn]] void verif_assert_failed(const char* expr, const char* file, int line);
[[noreturn]] void verif_stop(const char* what, const char* file, int line);
#endif
#undef assert
#define assert(e) ((e) ? (void)0 : verif_assert_failed(#e, __FILE__, __LINE__))
