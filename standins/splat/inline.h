#pragma once
#if defined(VERIF_NO_FORCE_INLINE)
#define FORCE_INLINE inline
#else
#define FORCE_INLINE inline __attribute__((always_inline))
#endif
#define NEVER_INLINE __attribute__((noinline))
