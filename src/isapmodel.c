#include "isapmodel.h"
#include <stdlib.h>
#include <string.h>

const inst_t INST[4] = {
    { "isapa128av20", 0, 40,  8, 12,  1,  6, 12 },
    { "isapa128v20",  0, 40,  8, 12, 12, 12, 12 },
    { "isapk128av20", 1, 50, 18, 16,  1,  8,  8 },
    { "isapk128v20",  1, 50, 18, 20, 12, 12, 12 },
};

/* ---- explicit-state bookkeeping ---- */

uint64_t model_states, model_transitions;
int model_track = 1;
static uint64_t *tab, tabsize, tabused;

void model_reset(void)
{
    model_states = model_transitions = 0;
    tabused = 0;
    if (tab) memset(tab, 0, tabsize * 8);
}

static int tab_insert(uint64_t h)
{
    if (h == 0) h = 1;
    if ((tabused + 1) * 2 > tabsize) {
        uint64_t n = tabsize ? tabsize * 2 : 1 << 16, *t = calloc(n, 8), i, j;
        if (!t) abort();
        for (i = 0; i < tabsize; i++)
            if (tab[i]) {
                for (j = tab[i] & (n - 1); t[j]; j = (j + 1) & (n - 1)) ;
                t[j] = tab[i];
            }
        free(tab);
        tab = t, tabsize = n;
    }
    uint64_t j;
    for (j = h & (tabsize - 1); tab[j]; j = (j + 1) & (tabsize - 1))
        if (tab[j] == h) return 0;
    tab[j] = h;
    tabused++;
    return 1;
}

static uint64_t mix(uint64_t x)
{
    x ^= x >> 31; x *= 0x9e3779b97f4a7c15ULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32;
    return x;
}

/* A state has been entered by one transition. */
static void enter(const inst_t *I, int phase, int pos, const sponge_t *s)
{
    model_transitions++;
    if (!model_track) return;
    uint64_t h = mix((uint64_t)(I ? I - INST : 7) << 32 | (uint64_t)phase << 16 | (uint64_t)pos), w;
    int n = I ? I->bytes : 40, i;
    for (i = 0; i < n; i += 8) {
        w = 0;
        memcpy(&w, s->b + i, n - i < 8 ? n - i : 8);
        h = mix(h ^ w) + 0x632be59bd9b4e019ULL;
    }
    model_states += tab_insert(h);
}

/* ---- Ascon-p: the last `rounds` of 12 rounds ---- */

static uint64_t ror64(uint64_t x, int n) { return x >> n | x << (64 - n); }

static void ascon(uint8_t *b, int rounds)
{
    uint64_t x[5], t[5];
    int i, r;
    for (i = 0; i < 5; i++) {
        x[i] = 0;
        for (r = 0; r < 8; r++) x[i] = x[i] << 8 | b[8 * i + r];
    }
    for (r = 12 - rounds; r < 12; r++) {
        x[2] ^= (uint64_t)((15 - r) << 4 | r);                /* constant addition */
        x[0] ^= x[4]; x[4] ^= x[3]; x[2] ^= x[1];              /* substitution layer */
        for (i = 0; i < 5; i++) t[i] = ~x[i] & x[(i + 1) % 5];
        for (i = 0; i < 5; i++) x[i] ^= t[(i + 1) % 5];
        x[1] ^= x[0]; x[0] ^= x[4]; x[3] ^= x[2]; x[2] = ~x[2];
        x[0] ^= ror64(x[0], 19) ^ ror64(x[0], 28);             /* linear layer */
        x[1] ^= ror64(x[1], 61) ^ ror64(x[1], 39);
        x[2] ^= ror64(x[2], 1) ^ ror64(x[2], 6);
        x[3] ^= ror64(x[3], 10) ^ ror64(x[3], 17);
        x[4] ^= ror64(x[4], 7) ^ ror64(x[4], 41);
    }
    for (i = 0; i < 5; i++)
        for (r = 0; r < 8; r++) b[8 * i + r] = (uint8_t)(x[i] >> (56 - 8 * r));
}

/* ---- Keccak-p[400]: the last `rounds` of 20 rounds; constants derived as in FIPS 202 ---- */

static uint16_t rol16(uint16_t x, int n) { return n ? (uint16_t)(x << n | x >> (16 - n)) : x; }

static uint16_t kRC[20];
static int kRho[25];
static int kready;

static int rc_bit(int t)
{
    unsigned r = 1;
    int i;
    for (i = 0; i < t % 255; i++) r = (r << 1) ^ ((r >> 7) * 0x171);
    return r & 1;
}

static void keccak_setup(void)
{
    int r, j, t, x = 1, y = 0, z;
    for (r = 0; r < 20; r++) {
        kRC[r] = 0;
        for (j = 0; j <= 4; j++) kRC[r] |= (uint16_t)(rc_bit(j + 7 * r) << ((1 << j) - 1));
    }
    kRho[0] = 0;
    for (t = 0; t < 24; t++) {
        kRho[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 16;
        z = y, y = (2 * x + 3 * y) % 5, x = z;
    }
    kready = 1;
}

static void keccak(uint8_t *b, int rounds)
{
    uint16_t a[25], c[5], d, e[25];
    int i, r, x, y;
    if (!kready) keccak_setup();
    for (i = 0; i < 25; i++) a[i] = (uint16_t)(b[2 * i] | b[2 * i + 1] << 8);
    for (r = 20 - rounds; r < 20; r++) {
        for (x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        for (x = 0; x < 5; x++) {
            d = c[(x + 4) % 5] ^ rol16(c[(x + 1) % 5], 1);
            for (y = 0; y < 5; y++) a[x + 5 * y] ^= d;
        }
        for (x = 0; x < 5; x++)
            for (y = 0; y < 5; y++) e[y + 5 * ((2 * x + 3 * y) % 5)] = rol16(a[x + 5 * y], kRho[x + 5 * y]);
        for (y = 0; y < 5; y++)
            for (x = 0; x < 5; x++)
                a[x + 5 * y] = (uint16_t)(e[x + 5 * y] ^ (~e[(x + 1) % 5 + 5 * y] & e[(x + 2) % 5 + 5 * y]));
        a[0] ^= kRC[r];
    }
    for (i = 0; i < 25; i++) b[2 * i] = (uint8_t)a[i], b[2 * i + 1] = (uint8_t)(a[i] >> 8);
}

void permute(const inst_t *I, sponge_t *s, int rounds)
{
    if (I->keccak) keccak(s->b, rounds); else ascon(s->b, rounds);
}

/* ---- ISAP ---- */

static void put_iv(const inst_t *I, uint8_t *p, uint8_t id)
{
    uint8_t iv[8] = { id, 128, (uint8_t)(8 * I->rate), 1, (uint8_t)I->sH, (uint8_t)I->sB, (uint8_t)I->sE, (uint8_t)I->sK };
    memcpy(p, iv, 8);
}

static void rekey(const inst_t *I, const uint8_t *k, uint8_t id, const uint8_t *y, uint8_t *out, int outlen)
{
    sponge_t s;
    int i;
    memset(&s, 0, sizeof s);
    memcpy(s.b, k, 16);
    put_iv(I, s.b + 16, id);
    permute(I, &s, I->sK);
    enter(I, PH_RK_INIT, id, &s);
    for (i = 0; i < 128; i++) {
        s.b[0] ^= (uint8_t)((y[i / 8] >> (7 - i % 8) & 1) << 7);
        permute(I, &s, i < 127 ? I->sB : I->sK);
        enter(I, i < 127 ? PH_RK_ABSORB : PH_RK_DONE, i, &s);
    }
    memcpy(out, s.b, outlen);
}

void mac_begin(const inst_t *I, const uint8_t n[16], walk_t *w)
{
    memset(w, 0, sizeof *w);
    memcpy(w->s.b, n, 16);
    put_iv(I, w->s.b + 16, 1);
    permute(I, &w->s, I->sH);
    enter(I, PH_MAC_INIT, 0, &w->s);
}

static void absorb(const inst_t *I, walk_t *w, uint8_t byte, int phase)
{
    w->s.b[w->pos++] ^= byte;
    if (w->pos == I->rate) {
        permute(I, &w->s, I->sH);
        w->pos = 0;
    }
    enter(I, phase, w->pos, &w->s);
}

void mac_ad(const inst_t *I, walk_t *w, uint8_t byte) { absorb(I, w, byte, PH_MAC_AD); }
void mac_ct(const inst_t *I, walk_t *w, uint8_t byte) { absorb(I, w, byte, PH_MAC_CT); }

void mac_sep(const inst_t *I, walk_t *w)
{
    w->s.b[w->pos] ^= 0x80;
    permute(I, &w->s, I->sH);
    w->s.b[I->bytes - 1] ^= 1;
    w->pos = 0;
    enter(I, PH_MAC_DS, 0, &w->s);
}

void mac_end(const inst_t *I, const walk_t *w, const uint8_t k[16], uint8_t tag[16])
{
    sponge_t s = w->s;
    uint8_t ka[16];
    s.b[w->pos] ^= 0x80;
    permute(I, &s, I->sH);
    enter(I, PH_MAC_Y, 0, &s);
    rekey(I, k, 2, s.b, ka, 16);
    memcpy(s.b, ka, 16);
    enter(I, PH_MAC_KA, 0, &s);
    permute(I, &s, I->sH);
    enter(I, PH_MAC_TAG, 0, &s);
    memcpy(tag, s.b, 16);
}

void enc_begin(const inst_t *I, const uint8_t k[16], const uint8_t n[16], ks_t *z)
{
    memset(z, 0, sizeof *z);
    rekey(I, k, 3, n, z->s.b, I->bytes - 16);
    memcpy(z->s.b + I->bytes - 16, n, 16);
    enter(I, PH_ENC_INIT, 0, &z->s);
}

uint8_t enc_byte(const inst_t *I, ks_t *z)
{
    if (z->pos == 0) permute(I, &z->s, I->sE);
    uint8_t r = z->s.b[z->pos];
    z->pos = (z->pos + 1) % I->rate;
    enter(I, PH_ENC_SQUEEZE, z->pos, &z->s);
    return r;
}

void model_encrypt(const inst_t *I, const uint8_t *k, const uint8_t *n, const uint8_t *ad, uint64_t adlen,
                   const uint8_t *m, uint64_t mlen, uint8_t *c)
{
    uint64_t i;
    walk_t w;
    ks_t z;
    enc_begin(I, k, n, &z);
    for (i = 0; i < mlen; i++) c[i] = m[i] ^ enc_byte(I, &z);
    mac_begin(I, n, &w);
    for (i = 0; i < adlen; i++) mac_ad(I, &w, ad[i]);
    mac_sep(I, &w);
    for (i = 0; i < mlen; i++) mac_ct(I, &w, c[i]);
    mac_end(I, &w, k, c + mlen);
}

/* ---- Ascon-Hash ---- */

void hash_begin(walk_t *w)
{
    static const uint8_t iv[8] = { 0, 64, 12, 0, 0, 0, 1, 0 };
    memset(w, 0, sizeof *w);
    memcpy(w->s.b, iv, 8);
    ascon(w->s.b, 12);
    enter(NULL, PH_HASH_ABSORB, 0, &w->s);
}

void hash_byte(walk_t *w, uint8_t byte)
{
    w->s.b[w->pos++] ^= byte;
    if (w->pos == 8) ascon(w->s.b, 12), w->pos = 0;
    enter(NULL, PH_HASH_ABSORB, w->pos, &w->s);
}

void hash_end(const walk_t *w, uint8_t out[32])
{
    sponge_t s = w->s;
    int i;
    s.b[w->pos] ^= 0x80;
    for (i = 0; i < 4; i++) {
        ascon(s.b, 12);
        enter(NULL, PH_HASH_SQUEEZE, i, &s);
        memcpy(out + 8 * i, s.b, 8);
    }
}
