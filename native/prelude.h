/* Force-included before every CEX source in the native (Linux) model-checking builds.
   Gives CexConfig.h the platform macros of the repository's supported (Windows / MSVC) configuration, exactly as
   /opt/vp/compat/prelude.h does for the cross build, so the code paths that ship are the code paths checked; the
   Windows calls themselves resolve to the simulated operating system in /verif/native (winsim.h / winsim.cpp). */
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <vector>
#include <array>
#include <iostream>
#include <limits.h>
#include <memory>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <functional>
#include <chrono>
#include <cmath>
#include <algorithm>
#include <immintrin.h>
#include <x86intrin.h>
#define _XCR_XFEATURE_ENABLED_MASK 0
#define _MSC_VER 1930
#define _M_X64 100
#define _M_AMD64 100
#define _WIN32 1
#define _WIN64 1
#pragma push_macro("__SIZEOF_INT128__")
#undef __SIZEOF_INT128__
#pragma push_macro("_POSIX_VERSION")
#undef _POSIX_VERSION
#ifndef CEX_REPO
#define CEX_REPO /repo
#endif
#include "CexConfig.h"
#pragma pop_macro("_POSIX_VERSION")
#pragma pop_macro("__SIZEOF_INT128__")
#undef _MSC_VER
#undef _WIN32
#undef _WIN64
#undef _M_X64
#undef _M_AMD64
#undef CEX_OPTIMIZE_IGNORE
#undef CEX_OPTIMIZE_RESUME
#define CEX_OPTIMIZE_IGNORE
#define CEX_OPTIMIZE_RESUME
#include "winsim.h"
/* The project loads unaligned memory with these; MSVC compiles them to unaligned moves. */
#define _mm_load_si128 _mm_loadu_si128
#define _mm_store_si128 _mm_storeu_si128
#define _mm256_load_si256 _mm256_loadu_si256
#define _mm256_store_si256 _mm256_storeu_si256
/* The thread instrumentation leaves 32-byte vector accesses out: they are reported here. */
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" void cex_vread(const void*, unsigned); extern "C" void cex_vwrite(const void*, unsigned);
__attribute__((always_inline)) static inline __m256i cex_vload(const __m256i* p) { cex_vread(p, 32); return _mm256_loadu_si256(p); }
__attribute__((always_inline)) static inline void cex_vstore(__m256i* p, __m256i v) { cex_vwrite(p, 32); _mm256_storeu_si256(p, v); }
#define _mm256_loadu_si256(p) cex_vload((const __m256i*)(p))
#define _mm256_storeu_si256(p, v) cex_vstore((__m256i*)(p), (v))
#endif
#endif
