/* Called on every edge and memory access of the instrumented build: delays the thread at a few
   places, picked at random for each thread and scenario. */
#define _GNU_SOURCE
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <unistd.h>

#define N 64
#define PLACES 4096
static __thread struct {
    uint64_t rng, salt;
    uint32_t mod;
    uint8_t used[N];
} d;
static atomic_ulong delays;
static _Atomic uint8_t seen[PLACES];

static inline __attribute__((always_inline)) void at(uintptr_t pc) {
    if (__builtin_expect(d.mod == 0, 1)) return;
    uint64_t h = (pc ^ d.salt) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 31;
    if ((uint32_t)(h >> 8) % d.mod != 0) return;
    uint8_t *u = &d.used[(h >> 50) % N];
    if (*u >= 6) return;
    uint64_t x = d.rng;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    d.rng = x;
    if (x >> 63) return;
    ++*u;
    atomic_fetch_add_explicit(&delays, 1, memory_order_relaxed);
    atomic_store_explicit(&seen[((pc * 0x9E3779B97F4A7C15ull) >> 40) % PLACES], 1, memory_order_relaxed);
    switch (x >> 40 & 7) {
    case 0:
        for (uint64_t i = 0; i < 1 + (x >> 20) % 5; i++) sched_yield();
        break;
    case 1:
        usleep((x >> 20) % 600);
        break;
    default:
        usleep((x >> 20) % 120);
    }
}

void vh_delay_at(uint64_t seed, uint32_t mod) {
    d.rng = seed | 1;
    d.salt = seed * 0xD1B54A32D192ED03ull;
    for (int i = 0; i < N; i++) d.used[i] = 0;
    d.mod = mod;
}
unsigned long vh_delays(void) { return atomic_load(&delays); }
unsigned long vh_places(void) {
    unsigned long n = 0;
    for (int i = 0; i < PLACES; i++) n += atomic_load(&seen[i]);
    return n;
}

#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_pc(void) { at(PC); }
#define ACC(n) \
    void __sanitizer_cov_load##n(void *p) { (void)p; at(PC); } \
    void __sanitizer_cov_store##n(void *p) { (void)p; at(PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
