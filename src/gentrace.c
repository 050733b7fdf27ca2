/* gentrace SET INSTANCE OUT [ARGS]: explores the model over a set of inputs and writes every completed run. */
#include "isapmodel.h"
#include "tracefile.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint8_t *blob;
static uint64_t bloblen, blobcap;
static trec_t *rec;
static uint32_t nrec, caprec;
static const inst_t *I;
static uint64_t seed = 1;

static uint64_t rnd(void)
{
    seed += 0x9e3779b97f4a7c15ULL;
    uint64_t z = seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static uint64_t put(const uint8_t *p, uint64_t n)
{
    uint64_t o = bloblen;
    if (bloblen + n > blobcap) {
        blobcap = (bloblen + n) * 2 + 4096;
        blob = realloc(blob, blobcap);
        if (!blob) abort();
    }
    if (p) memcpy(blob + o, p, n); else memset(blob + o, 0, n);
    bloblen += n;
    return o;
}

static trec_t *newrec(void)
{
    if (nrec == caprec) {
        caprec = caprec * 2 + 1024;
        rec = realloc(rec, caprec * sizeof *rec);
        if (!rec) abort();
    }
    memset(rec + nrec, 0, sizeof *rec);
    return rec + nrec++;
}

enum { PAT_RND, PAT_ZERO, PAT_FF, PAT_80, PAT_HI, PAT_7F, PAT_PADTAIL, PAT_ASC, NPAT };

static void fill(uint8_t *p, uint64_t n, int pat)
{
    uint64_t i;
    for (i = 0; i < n; i++)
        switch (pat) {
        case PAT_RND: p[i] = (uint8_t)(rnd() >> 23); break;
        case PAT_ZERO: p[i] = 0; break;
        case PAT_FF: p[i] = 0xff; break;
        case PAT_80: p[i] = 0x80; break;
        case PAT_HI: p[i] = (uint8_t)(0x80 | i); break;
        case PAT_7F: p[i] = 0x7f; break;
        case PAT_PADTAIL: p[i] = i % 5 ? 0 : 0x80; break;
        default: p[i] = (uint8_t)i; break;
        }
}

/* Explore all (adlen, mlen) pairs for which want() is non-negative, sharing prefixes: the walk over the
   associated data is a path, every adlen opens a branch that walks the ciphertext, every mlen a leaf. */
static int (*want)(uint32_t a, uint32_t m);

static void tree(const uint8_t *k, const uint8_t *n, const uint8_t *ad, uint32_t amax,
                 const uint8_t *m, uint32_t mmax, uint32_t set)
{
    uint64_t ko = put(k, 16), no = put(n, 16), ao = put(ad, amax), mo = put(m, mmax), co = put(NULL, mmax);
    uint32_t a, i;
    ks_t z;
    walk_t w, v;
    enc_begin(I, k, n, &z);
    for (i = 0; i < mmax; i++) blob[co + i] = blob[mo + i] ^ enc_byte(I, &z);
    mac_begin(I, n, &w);
    for (a = 0; a <= amax; a++) {
        uint32_t last = 0;
        int any = 0;
        for (i = 0; i <= mmax; i++)
            if (want(a, i) >= 0) any = 1, last = i;
        if (any) {
            v = w;
            mac_sep(I, &v);
            for (i = 0; i <= last; i++) {
                int t = want(a, i);
                if (t >= 0) {
                    trec_t *r = newrec();
                    r->tier = t, r->adlen = a, r->mlen = i, r->set = set;
                    r->k = ko, r->n = no, r->ad = ao, r->m = mo, r->ct = co;
                    mac_end(I, &v, k, r->tag);
                }
                if (i < last) mac_ct(I, &v, blob[co + i]);
            }
        }
        if (a < amax) mac_ad(I, &w, ad[a]);
    }
}

static void one(const uint8_t *k, const uint8_t *n, const uint8_t *ad, uint32_t adlen,
                const uint8_t *m, uint32_t mlen, int tier, uint32_t set)
{
    uint8_t *c = malloc(mlen + 16);
    model_encrypt(I, k, n, ad, adlen, m, mlen, c);
    trec_t *r = newrec();
    r->k = put(k, 16), r->n = put(n, 16), r->ad = put(ad, adlen), r->m = put(m, mlen), r->ct = put(c, mlen);
    memcpy(r->tag, c + mlen, 16);
    r->adlen = adlen, r->mlen = mlen, r->tier = tier, r->set = set;
    free(c);
}

/* ---- sets ---- */

static uint32_t G, GS;
static int want_grid(uint32_t a, uint32_t m) { return a <= GS && m <= GS ? 0 : a <= G && m <= G ? 1 : -1; }

/* boundary lengths: within `w` of a power of two, or of a power of two of blocks */
static int boundary(uint32_t n, uint32_t lo, int w)
{
    uint64_t p;
    for (p = lo; p <= 1u << 30; p <<= 1) {
        if (n + w >= p && n <= p + w) return 1;
        uint64_t q = p / 8 * I->rate;
        if (n + w >= q && n <= q + w) return 1;
    }
    return 0;
}
static int large(uint32_t n)
{
    static const uint32_t v[] = { 0, 7, 1500, 2047, 2048, 4097, 8192, 10007, 16383, 16384, 32768, 65535, 65536, 65537, 65541 };
    uint32_t i;
    for (i = 0; i < sizeof v / sizeof *v; i++)
        if (v[i] == n) return 1;
    return 0;
}
static uint32_t L0, L1, L2, L3; /* dense up to L0 (all), L1 (not slow), L3 (fast), boundaries up to L2 */
static int lad(uint32_t n)
{
    if (n <= L0) return 0;
    if (n <= L1) return 1;
    if (n > 100000 && n <= L2) return n && boundary(n - 1, 512, 0) ? 1 : boundary(n, 512, 2) ? 2 : -1;
    if (n <= L2 && boundary(n, 512, 2)) return n <= 4 * L0 || (L3 && large(n)) ? 0 : 1;
    if (n <= L2 && n <= 70000 && (boundary(n, 512, 10) || (n < 12000 ? n % 500 : n % 10000) <= 1)) return 1;
    return n <= L3 ? 2 : -1;
}
static int want_large(uint32_t a, uint32_t m) { return large(a) && large(m) ? 1 : -1; }
static int want_mlad(uint32_t a, uint32_t m)
{
    if (a == 0) return lad(m);
    if (a == 13) return lad(m) >= 0 && (m % 3 == 0 || m > L1) ? (m > 100000 ? 2 : lad(m) ? lad(m) : 1) : -1;
    return -1;
}
static int want_alad(uint32_t a, uint32_t m)
{
    if (m == 0) return lad(a);
    if (m == 13) return lad(a) >= 0 && (a % 3 == 0 || a > L1) ? (a > 100000 ? 2 : lad(a) ? lad(a) : 1) : -1;
    return -1;
}
static uint32_t CX;
static int bl(uint32_t n)
{
    uint32_t r = I->rate;
    if (n > CX) return 0;
    if (n == 0 || n == 1) return 1;
    if (boundary(n, 64, 1)) return 1;
    if (n > CX / 2 && n % (16 * r) == 0) return 1;
    return n < 100 && (n % (4 * r) == 0 || n % (4 * r) == r - 1);
}
static int want_cross(uint32_t a, uint32_t m) { return bl(a) && bl(m) ? (a <= 260 && m <= 260 ? 0 : 1) : -1; }

static void values(void)
{
    /* alphabet of values at fixed shapes: every bit and every byte value at every position of key and nonce,
       single-bit and byte patterns in data */
    uint32_t R = I->rate, al = 2 * R + 3, ml = 2 * R + 5, i, j, v;
    uint8_t k[16], n[16], ad[64], m[64], x[64];
    uint32_t set = 20;
    fill(k, 16, PAT_RND), fill(n, 16, PAT_RND), fill(ad, 64, PAT_RND), fill(m, 64, PAT_RND);
    for (j = 0; j < 3; j++) {               /* bases: random-looking, zero, ones */
        uint8_t kb[16], nb[16];
        memcpy(kb, k, 16), memcpy(nb, n, 16);
        if (j) fill(kb, 16, j == 1 ? PAT_ZERO : PAT_FF), fill(nb, 16, j == 1 ? PAT_ZERO : PAT_FF);
        for (i = 0; i < 128; i++) {
            memcpy(x, kb, 16), x[i / 8] ^= (uint8_t)(1 << i % 8);
            one(x, nb, ad, 5, m, 7, 0, set);
            memcpy(x, nb, 16), x[i / 8] ^= (uint8_t)(1 << i % 8);
            one(kb, x, ad, 5, m, 7, 0, set);
        }
        one(kb, nb, ad, al, m, ml, 0, set);
    }
    for (i = 0; i < 16; i++)                /* every byte value at every position */
        for (v = 0; v < 256; v++) {
            memcpy(x, k, 16), x[i] = (uint8_t)v;
            one(x, n, ad, 3, m, R + 1, (v & 15) == i ? 0 : 1, set + 1);
            memcpy(x, n, 16), x[i] = (uint8_t)v;
            one(k, x, ad, R + 1, m, 3, (v & 15) == i ? 0 : 1, set + 1);
        }
    for (i = 0; i < al; i++)
        for (v = 0; v < 8; v++) {           /* single bits of data */
            memset(x, 0, 64), x[i] = (uint8_t)(1 << v);
            one(k, n, x, al, m, 3, v == 7 ? 0 : 1, set + 2);
        }
    for (i = 0; i < ml; i++)
        for (v = 0; v < 8; v++) {
            memset(x, 0, 64), x[i] = (uint8_t)(1 << v);
            one(k, n, ad, 3, x, ml, v == 7 ? 0 : 1, set + 2);
        }
    for (v = 0; v < 256; v++) {             /* every byte value at every position of data, in parallel */
        for (i = 0; i < 64; i++) x[i] = (uint8_t)(v + i);
        one(k, n, x, al, x, ml, 0, set + 3);
        memset(x, (int)v, 64);
        one(k, n, x, al, x, ml, 1, set + 3);
        one(x, x, x, R, x, R, 1, set + 3);
    }
    {                                       /* every value of the last nonce byte pair that a counter passes */
        for (v = 0; v < 300; v++) {
            memset(x, 0, 16), x[15] = (uint8_t)v, x[14] = (uint8_t)(v >> 8);
            one(k, x, ad, 0, m, 1, v < 16 || v > 250 ? 0 : 1, set + 4);
        }
    }
    {                                       /* ciphertext bodies of all zeros, ones, 0x80.. */
        static const uint8_t cv[4] = { 0, 0xff, 0x80, 0x01 };
        uint8_t z[80], y[64];
        memset(y, 0, 64);
        model_encrypt(I, k, n, NULL, 0, y, 64, z);
        for (j = 0; j < 4; j++) {
            for (i = 0; i < 64; i++) x[i] = z[i] ^ cv[j];
            for (i = 0; i <= ml; i++) one(k, n, ad, i % 7, x, i, i % 4 ? 1 : 0, set + 5);
        }
    }
    one(k, k, k, 16, k, 16, 0, set + 6);    /* related inputs */
    one(k, n, n, 16, k, 16, 0, set + 6);
    one(k, n, k, 16, n, 16, 0, set + 6);
    one(n, k, m, ml, m, ml, 0, set + 6);
}

/* combinations of extreme bytes: two positions at once */
static void pairs(void)
{
    static const uint8_t ext[4] = { 0x00, 0x80, 0xff, 0x01 };
    uint8_t k[16], n[16], ad[64], m[64], x[64], y[64];
    uint32_t i, j, a, b;
    fill(k, 16, PAT_RND), fill(n, 16, PAT_RND), fill(ad, 64, PAT_RND), fill(m, 64, PAT_RND);
    for (i = 0; i < 16; i++)
        for (j = i + 1; j < 16; j++)
            for (a = 0; a < 4; a++)
                for (b = 0; b < 4; b++) {
                    memcpy(x, k, 16), x[i] = ext[a], x[j] = ext[b];
                    one(x, n, ad, 2, m, 9, 1, 40);
                    memcpy(x, n, 16), x[i] = ext[a], x[j] = ext[b];
                    one(k, x, ad, 9, m, 2, 1, 41);
                }
    for (i = 0; i < 16; i++)
        for (j = 0; j < 16; j++)
            for (a = 0; a < 4; a++) {
                memcpy(x, k, 16), x[i] = ext[a];
                memcpy(y, n, 16), y[j] = ext[a];
                one(x, y, ad, 4, m, 4, 1, 42);
            }
}

static void hashes(uint32_t dense, uint32_t max)
{
    uint8_t *p = malloc(max + 64), d[32];
    uint32_t i, pat, v;
    walk_t w;
    for (pat = 0; pat < (dense <= 64 ? 2 : NPAT); pat++) {
        fill(p, max, pat);
        uint64_t po = put(p, max);
        hash_begin(&w);
        for (i = 0; i <= max; i++) {
            int t = i <= dense / 4 ? 0 : i <= dense ? 1 : boundary(i, 512, 9) || (i <= 70000 && (i < 12000 ? i % 500 : i % 10000) <= 1) ? (i <= 4096 + 9 ? 0 : 1) : -1;
            if (pat && t == 0 && i > 80) t = i % 7 ? 1 : 0;
            if (t >= 0) {
                hash_end(&w, d);
                trec_t *r = newrec();
                r->kind = 1, r->tier = t, r->mlen = i, r->m = po, r->ct = put(d, 32), r->set = 60 + pat;
            }
            if (i < max) hash_byte(&w, p[i]);
        }
    }
    if (dense <= 64) return;
    for (i = 0; i < 40; i++)                /* every byte value at every position */
        for (v = 0; v < 256; v++) {
            fill(p, 40, PAT_ASC), p[i] = (uint8_t)v;
            uint32_t j;
            hash_begin(&w);
            for (j = 0; j < 40; j++) hash_byte(&w, p[j]);
            hash_end(&w, d);
            trec_t *r = newrec();
            r->kind = 1, r->tier = v % 16 == i % 16 ? 0 : 1, r->mlen = 40, r->m = put(p, 40), r->ct = put(d, 32), r->set = 70;
        }
    for (v = 0; v < 256; v++)               /* all one-byte, and two-byte inputs */
        for (i = 0; i <= 256; i++) {
            p[0] = (uint8_t)v, p[1] = (uint8_t)i;
            uint32_t l = i == 256 ? 1 : 2, j;
            hash_begin(&w);
            for (j = 0; j < l; j++) hash_byte(&w, p[j]);
            hash_end(&w, d);
            trec_t *r = newrec();
            r->kind = 1, r->tier = l == 1 || (v % 16 == 0 && i % 16 == 0) ? 0 : 1, r->mlen = l, r->m = put(p, l), r->ct = put(d, 32), r->set = 71;
        }
    for (i = 0; i < 8 * 33; i++) {          /* single bits */
        memset(p, 0, 40), p[i / 8] = (uint8_t)(1 << i % 8);
        uint32_t j;
        hash_begin(&w);
        for (j = 0; j < 33; j++) hash_byte(&w, p[j]);
        hash_end(&w, d);
        trec_t *r = newrec();
        r->kind = 1, r->tier = 0, r->mlen = 33, r->m = put(p, 33), r->ct = put(d, 32), r->set = 72;
    }
}

/* bases for the tampering checks: a few shapes, and for every tag position and several byte values
   a run whose tag has that value there */
static void forgebase(uint32_t big)
{
    uint32_t R = I->rate, i, v, left;
    uint32_t shapes[][2] = { { 0, 0 }, { 5, 0 }, { 0, 9 }, { R, R }, { R - 1, R + 1 }, { 2 * R + 3, 3 * R }, { R + 5, 2 * R + 7 },
                             { 3, 4 * R + 2 }, { big, 3 }, { 3, big } };
    uint8_t k[16], n[16], *ad = malloc(big + 64), *m = malloc(big + 64);
    static uint8_t need[16][4];
    static const uint8_t val[4] = { 0x00, 0xff, 0x80, 0x01 };
    fill(k, 16, PAT_RND), fill(n, 16, PAT_RND), fill(ad, big + 64, PAT_RND), fill(m, big + 64, PAT_RND);
    for (i = 0; i < sizeof shapes / sizeof *shapes; i++)
        one(k, n, ad, shapes[i][0], m, shapes[i][1], shapes[i][0] + shapes[i][1] > 200 ? 1 : 0, 80 + i);
    for (left = 64, v = 0; left && v < 200000; v++) {
        uint8_t c[32];
        uint32_t j, hit = 0;
        memset(n, 0, 16), n[0] = (uint8_t)v, n[1] = (uint8_t)(v >> 8), n[2] = (uint8_t)(v >> 16);
        model_encrypt(I, k, n, ad, 1, m, 1, c);
        for (i = 0; i < 16; i++)
            for (j = 0; j < 4; j++)
                if (!need[i][j] && c[1 + i] == val[j]) need[i][j] = 1, hit = 1, left--;
        if (hit) one(k, n, ad, 1, m, 1, 0, 100);
    }
}

int main(int argc, char **argv)
{
    if (argc < 4) return 2;
    const char *set = argv[1];
    int in = atoi(argv[2]);
    uint32_t a1 = argc > 4 ? strtoul(argv[4], 0, 0) : 0, a2 = argc > 5 ? strtoul(argv[5], 0, 0) : 0,
             a3 = argc > 6 ? strtoul(argv[6], 0, 0) : 0;
    uint8_t k[16], n[16];
    I = &INST[in & 3];
    seed = 1000 + in;
    if (!strcmp(set, "grid")) {             /* a1: largest length, a2: largest for slow ones, a3: patterns */
        G = a1, GS = a2, want = want_grid;
        uint8_t *ad = malloc(G + 1), *m = malloc(G + 1);
        uint32_t p;
        for (p = 0; p < a3; p++) {
            fill(k, 16, p), fill(n, 16, p == 1 ? PAT_RND : p), fill(ad, G, p), fill(m, G, p == 1 ? PAT_FF : p);
            if (p) GS = a2 / 3;
            tree(k, n, ad, G, m, G, p);
        }
    } else if (!strcmp(set, "ladder")) {    /* a1: dense for all, a2: dense, a3: boundaries up to */
        L0 = a1, L1 = a2, L2 = a3, L3 = argc > 7 ? strtoul(argv[7], 0, 0) : 0;
        uint8_t *big = malloc(L2 + 64), sm[16];
        uint32_t cx = L1 > 1030 ? 1030 : L1;
        fill(k, 16, PAT_RND), fill(n, 16, PAT_RND), fill(big, L2 + 64, PAT_RND), fill(sm, 16, PAT_RND);
        want = want_mlad, tree(k, n, sm, 13, big, L2, 10);
        fill(n, 16, PAT_RND), fill(big, L2 + 64, PAT_RND);
        want = want_alad, tree(k, n, big, L2, sm, 13, 11);
        CX = cx, want = want_cross, fill(k, 16, PAT_RND);
        tree(k, n, big, cx, big + 7, cx, 12);
        if (L3) want = want_large, tree(k, n, big, 65541, big + 3, 65541, 13);
    } else if (!strcmp(set, "values")) {
        values();
    } else if (!strcmp(set, "mini")) {      /* a1: largest length of a sparse grid; used where many builds are compared */
        uint8_t ad[600], m[600];
        uint32_t p, a, b;
        for (p = 0; p < NPAT; p++) {
            fill(k, 16, p), fill(n, 16, p == 1 ? PAT_RND : p), fill(ad, 600, p), fill(m, 600, p == 1 ? PAT_FF : p);
            for (a = 0; a <= a1; a++)
                for (b = 0; b <= a1; b++)
                    if (p ? (a * 3 + b * 5) % 17 == p : a <= 2 || b <= 2 || a % 9 == b % 9)
                        one(k, n, ad, a, m, b, (a + 3 * b) % 4 || p > 4 ? 1 : 0, p);
            if (p < 3) one(k, n, ad, 257, m, 300, 0, 9), one(k, n, ad, 511, m, 129, 0, 9);
        }
        static const uint32_t lg[] = { 1023, 1024, 2049, 4096, 8191, 16384, 32769, 65537 };
        uint8_t *big = malloc(66000);
        fill(k, 16, PAT_RND), fill(big, 66000, PAT_RND);
        for (p = 0; p < sizeof lg / sizeof *lg; p++) {
            one(k, n, big + p, lg[p], m, 21, lg[p] > 5000 ? 2 : lg[p] > 1100 ? 1 : 0, 12);
            one(k, n, ad, 13, big + p, lg[p], lg[p] > 5000 ? 2 : lg[p] > 1100 ? 1 : 0, 12);
        }
        free(big);
        for (p = 0; p < 128; p += 3) {
            uint8_t x[16];
            memcpy(x, k, 16), x[p / 8] ^= (uint8_t)(1 << p % 8);
            one(x, n, ad, 3, m, 9, p % 2, 10);
            memcpy(x, n, 16), x[p / 8] ^= (uint8_t)(1 << p % 8);
            one(k, x, ad, 9, m, 3, p % 2, 11);
        }
    } else if (!strcmp(set, "pairs")) {
        pairs();
    } else if (!strcmp(set, "hash")) {
        hashes(a1, a2);
    } else if (!strcmp(set, "forge")) {
        forgebase(a1);
    } else
        return 2;
    FILE *f = fopen(argv[3], "wb");
    thead_t h = { TRACE_MAGIC, nrec, sizeof h + (uint64_t)nrec * sizeof *rec, bloblen };
    if (!f) return 2;
    fwrite(&h, sizeof h, 1, f);
    fwrite(rec, sizeof *rec, nrec, f);
    fwrite(blob, 1, bloblen, f);
    if (fclose(f)) return 2;
    printf("{\"set\":\"%s\",\"instance\":%d,\"states\":%llu,\"transitions\":%llu,\"traces\":%u,\"bytes\":%llu}\n", set, in,
           (unsigned long long)model_states, (unsigned long long)model_transitions, nrec, (unsigned long long)bloblen);
    return 0;
}
