/* The secrets that C11 enumerates: for fixed public inputs and lengths, which keys, plaintexts and tags. */
#ifndef SECRETS_H
#define SECRETS_H
#include <string.h>
typedef unsigned char u8;
typedef unsigned long long ull;
int crypto_aead_encrypt(u8 *c, ull *clen, const u8 *m, ull mlen, const u8 *ad, ull adlen, const u8 *nsec, const u8 *npub, const u8 *k);
int crypto_aead_decrypt(u8 *m, ull *mlen, u8 *nsec, const u8 *c, ull clen, const u8 *ad, ull adlen, const u8 *npub, const u8 *k);

static const int SHAPES[][2] = { { 3, 5 }, { 0, 0 }, { 21, 41 }, { 36, 18 }, { 16, 8 }, { 70, 0 }, { 1, 83 }, { 150, 1040 } };
#define NSHAPES 8
enum { K_ENC_KEY, K_ENC_MSG, K_DEC_OK, K_DEC_BAD, NKINDS };

typedef struct __attribute__((aligned(16))) { u8 k[16], n[16], ad[160], m[1056], c[1088]; int al, ml; } in_t;

static ull srs;
static int secret_dry;         /* only say whether the secret exists */
static u8 srnd(void)
{
    srs += 0x9e3779b97f4a7c15ULL;
    ull z = srs;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return (u8)((z ^ (z >> 31)) >> 17);
}
static void srndfill(u8 *p, int n) { while (n--) *p++ = srnd(); }

/* variation number i of the n bytes p; 0 when there are no more.  level: 0 few, 1 normal, 2 all byte values */
static int vary(u8 *p, int n, int i, int level)
{
    int j, w = n > 128 ? 40 : n;     /* of a long message, some positions */
    int bits = level == 0 || n > 128 ? w : 8 * n;
    static const u8 pat[8] = { 0x00, 0xff, 0x80, 0x01, 0x7f, 0xfe, 0x55, 0xaa };
    if (i == 0) return 1;
    i--;
    if (i < bits) {
        if (bits == w) p[(i + 1) * n / w - 1] ^= (u8)(1 << (i * 3) % 8); else p[i / 8] ^= (u8)(1 << i % 8);
        return 1;
    }
    i -= bits;
    if (i < 8) { memset(p, pat[i], n); return 1; }
    i -= 8;
    if (i < w) { for (j = 0; j < (i + 1) * n / w; j++) p[j] = 0; return 1; }     /* zero prefix, ones suffix */
    i -= w;
    if (i < w) { for (j = i * n / w; j < n; j++) p[j] = 0xff; return 1; }
    i -= w;
    j = level == 0 ? 8 : 48;
    if (i < j) { srs = 5000 + i; srndfill(p, n); return 1; }
    i -= j;
    if (level < 2) return 0;
    if (i < 256 * n && n <= 16) { p[i / 256] = (u8)i; return 1; }
    if (n > 128) return 0;
    if (i < 4 * n && n > 16) { p[i / 4] = pat[i % 4]; return 1; }
    return 0;
}

/* fills x with secret number i of (shape, kind); 0 when there are no more */
static int secret(int shape, int kind, int i, int level, in_t *x)
{
    ull len;
    memset(x, 0, sizeof *x);
    srs = 99 + shape;
    srndfill(x->k, 16), srndfill(x->n, 16), srndfill(x->ad, sizeof x->ad), srndfill(x->m, sizeof x->m);
    x->al = SHAPES[shape][0], x->ml = SHAPES[shape][1];
    switch (kind) {
    case K_ENC_KEY:
        return vary(x->k, 16, i, level);
    case K_ENC_MSG:
        return x->ml ? vary(x->m, x->ml, i, level) : i == 0;
    case K_DEC_OK: {
        /* authentic ciphertexts of various keys and plaintexts */
        int nk = level == 0 ? 24 : 150;
        if (i < nk) { if (!vary(x->k, 16, i, level == 2 ? 1 : level)) return 0; }
        else if (!x->ml || !vary(x->m, x->ml, 1 + (i - nk), level)) return 0;
        if (!secret_dry) crypto_aead_encrypt(x->c, &len, x->m, x->ml, x->ad, x->al, NULL, x->n, x->k);
        return 1;
    }
    default: {
        u8 t[16], T[16];
        int j;
        static u8 made[sizeof x->c];
        static int have = -1;
        if (!secret_dry && have != shape) crypto_aead_encrypt(made, &len, x->m, x->ml, x->ad, x->al, NULL, x->n, x->k), have = shape;
        memcpy(x->c, made, sizeof made);
        memcpy(T, x->c + x->ml, 16), memcpy(t, T, 16);
        if (i == 0) { t[15] ^= 1; goto done; }
        i--;
        /* right prefixes and suffixes of every length */
        if (i < 16) { for (j = i; j < 16; j++) t[j] ^= 0xff; goto done; }
        i -= 16;
        if (i < 16) { for (j = 0; j <= i; j++) t[j] ^= 1; goto done; }
        i -= 16;
        if (i < 16) { t[i] ^= 0x80; goto done; }
        i -= 16;
        if (i < 8) { memset(t, 0, 16); t[0] = (u8)i; if (!memcmp(t, T, 16)) t[1]++; goto done; }
        i -= 8;
        {   /* wrong keys */
            int nk = level == 0 ? 20 : 160;
            if (i < nk) { if (!vary(x->k, 16, i + 1, level ? 1 : 0)) x->k[i % 16] ^= (u8)(i + 1); goto done; }
            i -= nk;
        }
        if (level == 0) return 0;
        if (i < 128) { t[i / 8] ^= (u8)(1 << i % 8); goto done; }
        i -= 128;
        if (i < 256) { for (j = 0; j < 8; j++) if (i >> j & 1) t[2 * j] ^= 1, t[2 * j + 1] ^= 2; if (!i) t[3] ^= 4; goto done; }
        i -= 256;
        if (level == 1) return 0;
        if (i < 4096) { t[i / 256] = (u8)i; if (!memcmp(t, T, 16)) t[i / 256] ^= 1; goto done; }
        return 0;
    done:
        memcpy(x->c + x->ml, t, 16);
        return 1;
    }
    }
}
#endif
