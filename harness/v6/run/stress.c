//go:build stresshook

#define _GNU_SOURCE
#include <sched.h>
#include <stdint.h>
#include <unistd.h>

/* Called at every entry and exit of an instrumented C function: now and then it
   lets other threads run, so that calls meet in the middle. */
static __thread uint32_t seed;

__attribute__((no_instrument_function)) static void meet(void *f)
{
	if (!seed)
		seed = (uint32_t)(uintptr_t)&seed | 1;
	seed ^= seed << 13;
	seed ^= seed >> 17;
	seed ^= seed << 5;
	if (seed % 97 == 0)
		usleep(seed % 60);
	else if (seed % 7 == 0)
		sched_yield();
}

__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *f, void *c) { meet(f); }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *f, void *c) { meet(f); }
