/* What the instrumented library tells about a run: edge counters, compared values, compared constants. */
#include <stdint.h>
#include <string.h>

#define RANGES 64
#define MAP 32768
#define WORDS 512

static uint8_t *begin[RANGES], *end[RANGES];
static int ranges;
static uint8_t map[MAP];
static uint64_t words[WORDS];
static int nwords;
static uint8_t seen[8192];

/* Values compared with a constant, at sites where they have never been equal to it. */
#define SITES 4096
#define PAIRS 1024
static uint8_t solved[SITES], taken[SITES];
static struct pair { uint64_t site, a, b; } pairs[PAIRS];
static int npairs;

void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
    for (int i = 0; i < ranges; i++)
        if (begin[i] == a) return;
    if (ranges < RANGES) {
        begin[ranges] = a;
        end[ranges++] = b;
    }
}

void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { (void)a; (void)b; }

static void word(uint64_t v) {
    uint32_t h = (uint32_t)((v * 0x9E3779B97F4A7C15ull) >> 48) & 8191;
    if (v < 3 || seen[h] || nwords == WORDS) return;
    seen[h] = 1;
    words[nwords++] = v;
}

/* how alike the two values are: the number of equal bits, and the distance when it is small */
static inline void compared(uintptr_t pc, uint64_t a, uint64_t b, int constant) {
    uint32_t site = (uint32_t)(pc - (uintptr_t)&__sanitizer_cov_pcs_init) * 0x9E3779B1u;
    uint64_t d = a > b ? a - b : b - a;
    uint32_t near = d < 16 ? (uint32_t)d : 16;
    uint32_t k = (site >> 16) % SITES;
    if (d == 0) solved[k] = 1;
    else if (constant && a > 2 && a < 1u << 31 && !solved[k] && taken[k] < 4 && npairs < PAIRS) {
        taken[k]++;
        pairs[npairs].site = k;
        pairs[npairs].a = a;
        pairs[npairs++].b = b;
    }
    map[((site >> 8) + 64 - __builtin_popcountll(a ^ b)) % MAP] = 1;
    map[((site >> 8) + 128 + near + (a > b ? 32 : 0)) % MAP] = 1;
}

#define CMP(N, T)                                                                                                      \
    void __sanitizer_cov_trace_cmp##N(T a, T b) { compared((uintptr_t)__builtin_return_address(0), a, b, 0); }            \
    void __sanitizer_cov_trace_const_cmp##N(T a, T b) {                                                                \
        word(a);                                                                                                       \
        compared((uintptr_t)__builtin_return_address(0), a, b, 1);                                                      \
    }
CMP(1, uint8_t)
CMP(2, uint16_t)
CMP(4, uint32_t)
CMP(8, uint64_t)

void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *cases) {
    (void)v;
    for (uint64_t i = 0; i < cases[0] && i < 64; i++) word(cases[2 + i]);
}

size_t lv_cov_edges(void) {
    size_t n = 0;
    for (int i = 0; i < ranges; i++) n += end[i] - begin[i];
    return n;
}

static int bucket(uint8_t c) {
    return c < 4 ? c - 1 : c < 8 ? 3 : c < 16 ? 4 : c < 32 ? 5 : c < 128 ? 6 : 7;
}

/* The features of the run since the last call, at most `max`; the counters start over. */
size_t lv_cov_take(uint32_t *out, size_t max) {
    size_t n = 0;
    uint32_t base = 0;
    for (int i = 0; i < ranges; i++) {
        uint8_t *p = begin[i];
        size_t length = end[i] - p;
        for (size_t k = 0; k < length; k++) {
            if (!p[k]) continue;
            if (n < max) out[n++] = (base + (uint32_t)k) * 8 + bucket(p[k]);
            p[k] = 0;
        }
        base += (uint32_t)length;
    }
    for (size_t k = 0; k < MAP; k += 8) {
        uint64_t w;
        memcpy(&w, map + k, 8);
        if (!w) continue;
        for (size_t j = k; j < k + 8; j++)
            if (map[j] && n < max) out[n++] = 0x80000000u | (uint32_t)j;
        memset(map + k, 0, 8);
    }
    return n;
}

size_t lv_cov_words(uint64_t *out, size_t max) {
    size_t n = (size_t)nwords < max ? (size_t)nwords : max;
    memcpy(out, words, n * sizeof *out);
    return n;
}

size_t lv_cov_pairs(uint64_t *out, size_t max) {
    size_t n = 0;
    for (int i = 0; i < npairs; i++) {
        if (n < max && !solved[pairs[i].site]) memcpy(out + 3 * n++, &pairs[i], sizeof *pairs);
        taken[pairs[i].site] = 0;
    }
    npairs = 0;
    return n;
}

int lv_cov_solved(uint64_t site) { return solved[site % SITES]; }
