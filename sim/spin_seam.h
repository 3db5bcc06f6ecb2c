/* Forced into every translation unit under test: the pause of a spin loop hands the turn to another simulated thread. */
#pragma once
#if defined(__SSE2__)
#include <emmintrin.h>
#ifdef __cplusplus
extern "C" void sim_spin_pause() noexcept;
#else
void sim_spin_pause(void);
#endif
#define _mm_pause() sim_spin_pause()
#endif
