// Callbacks for -sanitizer-coverage-{inline-8bit-counters,trace-compares}: edge counters and
// a value profile of the comparisons made by the code under test. Only the crates that the
// build wrapper instruments (cryptography, vpcalls) call these.
#include <stdint.h>
#include <string.h>

typedef struct { uint8_t *s, *e; } Mod;
static Mod mods[512];
static int nmods;
// comparisons still to be traced by this thread in the current case (0 = off)
static __thread uint32_t vp_left = 0;

#define VPN (1u << 18)
static uint8_t vpmap[VPN / 8];
static uint32_t vpnew;
uint64_t vp_features = 0;

#define DN 1024
static uint64_t dict[DN];
static uint32_t ndict;
static uint64_t dseen[4096];
#define RN 64
static uint64_t ring_a[RN], ring_b[RN];
static uint8_t ring_sz[RN];
static uint32_t ringi;

void __sanitizer_cov_8bit_counters_init(uint8_t *s, uint8_t *e) {
    if (s == e) return;
    for (int i = 0; i < nmods; i++) if (mods[i].s == s) return;
    if (nmods < 512) { mods[nmods].s = s; mods[nmods].e = e; nmods++; }
}
void __sanitizer_cov_pcs_init(const uintptr_t *b, const uintptr_t *e) { (void)b; (void)e; }

static inline void dict_add(uint64_t v) {
    if (v < 2) return;
    uint32_t h = (uint32_t)((v * 0x9E3779B97F4A7C15ull) >> 52);
    for (int i = 0; i < 8; i++) {
        uint64_t *p = &dseen[(h + i) & 4095];
        if (*p == v) return;
        if (*p == 0) { *p = v; if (ndict < DN) dict[ndict++] = v; return; }
    }
}
static inline void feat(uint64_t x) {
    uint32_t i = (uint32_t)((x * 0x9E3779B97F4A7C15ull) >> 46);
    if (!(vpmap[i >> 3] & (1u << (i & 7)))) { vpmap[i >> 3] |= 1u << (i & 7); vpnew++; vp_features++; }
}
static inline void on_cmp(uintptr_t pc, uint64_t a, uint64_t b, int sz, int isconst) {
    if (!vp_left) return;
    vp_left--;
    uint64_t x = a ^ b;
    feat((uint64_t)pc * 131 + (uint64_t)__builtin_popcountll(x));
    uint64_t d = a > b ? a - b : b - a;
    feat((uint64_t)pc * 131 + 70 + (d ? (uint64_t)(64 - __builtin_clzll(d)) : 0));
    if (isconst) dict_add(a);
    if (x && (ringi++ & 7) == 0) {
        uint32_t r = (ringi >> 3) % RN;
        ring_a[r] = a; ring_b[r] = b; ring_sz[r] = (uint8_t)sz;
    }
}
#define PC ((uintptr_t)__builtin_return_address(0))
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { on_cmp(PC, a, b, 1, 0); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { on_cmp(PC, a, b, 2, 0); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { on_cmp(PC, a, b, 4, 0); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { on_cmp(PC, a, b, 8, 0); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { on_cmp(PC, a, b, 1, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { on_cmp(PC, a, b, 2, 1); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { on_cmp(PC, a, b, 4, 1); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { on_cmp(PC, a, b, 8, 1); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
    if (!vp_left) return;
    uintptr_t pc = PC;
    for (uint64_t i = 0; i < c[0]; i++) on_cmp(pc + i, c[2 + i], v, (int)(c[1] / 8), 1);
}

void vp_cov_begin(void) {
    vpnew = 0;
    for (int m = 0; m < nmods; m++) memset(mods[m].s, 0, (size_t)(mods[m].e - mods[m].s));
    vp_left = 100000;
}
// Folds this run's counters into `seen` (one byte of bucket bits per counter); returns the
// number of new features.
uint32_t vp_cov_end(uint8_t *seen, uint64_t n) {
    vp_left = 0;
    uint32_t fresh = vpnew;
    uint64_t base = 0;
    for (int m = 0; m < nmods; m++) {
        uint64_t len = (uint64_t)(mods[m].e - mods[m].s);
        for (uint64_t i = 0; i < len && base + i < n; i++) {
            if (!((uintptr_t)(mods[m].s + i) & 7)) {
                while (i + 8 <= len && *(const uint64_t *)(mods[m].s + i) == 0) i += 8;
                if (i >= len || base + i >= n) break;
            }
            uint8_t c = mods[m].s[i];
            if (!c) continue;
            uint8_t b = c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
            if (!(seen[base + i] & b)) { seen[base + i] |= b; fresh++; vp_features++; }
        }
        base += len;
    }
    return fresh;
}
uint64_t vp_cov_total(void) { uint64_t t = 0; for (int m = 0; m < nmods; m++) t += (uint64_t)(mods[m].e - mods[m].s); return t; }
uint32_t vp_dict(uint64_t *out, uint32_t max) { uint32_t n = ndict < max ? ndict : max; memcpy(out, dict, n * 8); return ndict; }
uint32_t vp_dict_len(void) { return ndict; }
int vp_ring(uint32_t i, uint64_t *a, uint64_t *b) { i %= RN; *a = ring_a[i]; *b = ring_b[i]; return ring_sz[i]; }

/* callbacks that other instrumentation levels ask for; they carry nothing the loop uses */
void __sanitizer_cov_trace_pc_indir(uintptr_t callee) { (void)callee; }
void __sanitizer_cov_trace_pc(void) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_div4(uint32_t v) { (void)v; }
void __sanitizer_cov_trace_div8(uint64_t v) { (void)v; }
void __sanitizer_cov_trace_gep(uintptr_t i) { (void)i; }
