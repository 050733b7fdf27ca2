/* Replays model traces and enumerates call spaces on one implementation.
 *
 *   runner MODE ARGS...
 *
 * Prints STAT lines with counts measured in this run, SAMPLE lines, FAIL lines, and DONE when it got through.
 * Everything is deterministic: running the same command again visits the same cases in the same order. */
#define _GNU_SOURCE
#include "tracefile.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>
#if defined(__x86_64__)
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <linux/audit.h>
#endif

typedef unsigned char u8;
typedef unsigned long long ull;

int crypto_aead_encrypt(u8 *c, ull *clen, const u8 *m, ull mlen, const u8 *ad, ull adlen, const u8 *nsec, const u8 *npub, const u8 *k);
int crypto_aead_decrypt(u8 *m, ull *mlen, u8 *nsec, const u8 *c, ull clen, const u8 *ad, ull adlen, const u8 *npub, const u8 *k);
#ifdef CRYPTO_HASH
int crypto_hash(u8 *out, const u8 *in, ull inlen);
#define HAS_HASH 1
#else
static int crypto_hash(u8 *out, const u8 *in, ull inlen) { (void)out, (void)in, (void)inlen; return -99; }
#define HAS_HASH 0
#endif

/* ------------------------------------------------------------------ reporting */

static const char *mode = "?";
static volatile long cur[8];            /* the case being executed */
static volatile const char *what = "";
static volatile ull progress;
static int nfail, maxfail = 3;
static ull stat_calls, stat_cases, stat_accept, stat_reject;

static void case_id(char *p, size_t n)
{
    size_t o = snprintf(p, n, "%s", mode);
    int i;
    for (i = 0; i < 8; i++) o += snprintf(p + o, n - o, ".%ld", cur[i]);
}

static int quiet_fd = -1;
static void unquiet(void)
{
    if (quiet_fd >= 0) fflush(stdout), dup2(quiet_fd, 1), quiet_fd = -1;
}

static void stats(void)
{
    printf("STAT calls %llu\nSTAT cases %llu\nSTAT accepted %llu\nSTAT rejected %llu\n", stat_calls, stat_cases, stat_accept, stat_reject);
}

static void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void fail(const char *fmt, ...)
{
    char id[160];
    va_list ap;
    unquiet();
    case_id(id, sizeof id);
    printf("FAIL %s %s: ", id, (const char *)what);
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
    if (++nfail >= maxfail) { stats(); printf("STOPPED\n"); fflush(stdout); _exit(1); }
}

static void hex(char *o, const u8 *p, size_t n)
{
    size_t i, k = n > 48 ? 48 : n;
    for (i = 0; i < k; i++) sprintf(o + 2 * i, "%02x", p[i]);
    o[2 * k] = 0;
    if (k < n) strcat(o, "..");
}
#define HEX(name, p, n) char name[112]; hex(name, p, n)

/* ------------------------------------------------------------------ faults and hangs */

static sigjmp_buf faultjmp;
static volatile int fault_armed;
static u8 *volatile fault_addr;

typedef struct { const char *name; u8 *base; size_t size; } range_t;
static range_t ranges[16];
static int nranges;

static void on_fault(int sig, siginfo_t *si, void *uc)
{
    (void)uc;
    fault_addr = si->si_addr;
    if (fault_armed) { fault_armed = 0; siglongjmp(faultjmp, sig); }
    int i;
    const char *nm = "nowhere near a buffer";
    long off = 0;
    for (i = 0; i < nranges; i++) {
        u8 *b = ranges[i].base;
        if ((u8 *)si->si_addr >= b - 65536 && (u8 *)si->si_addr < b + ranges[i].size + 65536) {
            nm = ranges[i].name;
            off = (u8 *)si->si_addr - b;
            break;
        }
    }
    fail("signal %d, access to %p (%s, offset %ld from its start)", sig, si->si_addr, nm, off);
    stats();
    printf("STOPPED\n");
    fflush(stdout);
    _exit(1);
}

static ull last_progress;
static int stuck;
static void on_tick(int sig)
{
    (void)sig;
    if (progress != last_progress) { last_progress = progress, stuck = 0; return; }
    if (++stuck >= 6) {
        char id[160];
        case_id(id, sizeof id);
        printf("HANG %s %s\n", id, (const char *)what);
        fflush(stdout);
        _exit(4);
    }
}

static void handlers(void)
{
    static u8 *alt;
    stack_t ss;
    struct sigaction sa;
    struct itimerval it = { { 10, 0 }, { 10, 0 } };
    alt = mmap(NULL, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt, ss.ss_size = 1 << 18;
    sigaltstack(&ss, NULL);
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fault;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL);
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &sa, NULL);
    setitimer(ITIMER_PROF, &it, NULL);
}

/* called by AddressSanitizer builds */
void __asan_on_error(void)
{
    fail("AddressSanitizer error (see stderr)");
}

/* ------------------------------------------------------------------ calls */

static int ENC(u8 *c, ull *clen, const u8 *m, ull mlen, const u8 *ad, ull adlen, const u8 *n, const u8 *k)
{
    progress++, stat_calls++;
    return crypto_aead_encrypt(c, clen, m, mlen, ad, adlen, NULL, n, k);
}
static int DEC(u8 *m, ull *mlen, const u8 *c, ull clen, const u8 *ad, ull adlen, const u8 *n, const u8 *k)
{
    progress++, stat_calls++;
    int r = crypto_aead_decrypt(m, mlen, NULL, c, clen, ad, adlen, n, k);
    if (r == 0) stat_accept++; else stat_reject++;
    return r;
}
static int HASH(u8 *o, const u8 *in, ull n)
{
    progress++, stat_calls++;
    return crypto_hash(o, in, n);
}

static void *xalloc(size_t n)
{
    void *p = aligned_alloc(64, (n + 127) & ~(size_t)63);
    if (!p) { printf("ERROR out of memory\n"); exit(2); }
    memset(p, 0, (n + 127) & ~(size_t)63);
    return p;
}

static ull rs = 88172645463325252ULL;
static u8 rnd8(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (u8)(rs >> 24); }
static void rfill(u8 *p, size_t n) { while (n--) *p++ = rnd8(); }

/* ------------------------------------------------------------------ trace files */

typedef struct { u8 *map; thead_t *h; trec_t *r; u8 *blob; } tfile_t;

static void topen(const char *path, tfile_t *t)
{
    int fd = open(path, O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) { printf("ERROR cannot open %s\n", path); exit(2); }
    t->map = mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    t->h = (thead_t *)t->map;
    if (t->map == MAP_FAILED || t->h->magic != TRACE_MAGIC) { printf("ERROR bad trace file\n"); exit(2); }
    t->r = (trec_t *)(t->map + sizeof(thead_t));
    t->blob = t->map + t->h->blob;
}

/* ------------------------------------------------------------------ conf: replay model traces
   conf FILE what(1 enc, 2 dec, 4 hash) tier [only-first last] */

static int mode_conf(int argc, char **argv)
{
    tfile_t t;
    u8 k[32], n[32];
    u8 *ad = NULL, *m = NULL, *c = NULL, *p = NULL;
    size_t cap = 0;
    uint32_t i, lo = 0, hi;
    int w = atoi(argv[3]), tier = atoi(argv[4]);
    topen(argv[2], &t);
    hi = t.h->count;
    if (argc > 6) lo = atoi(argv[5]), hi = atoi(argv[6]);
    for (i = lo; i < hi && i < t.h->count; i++) {
        trec_t *r = &t.r[i];
        ull len = 0;
        int ret;
        if ((int)r->tier > tier) continue;
        if (r->kind == 1 ? !(w & 4) || !HAS_HASH : !(w & 3)) continue;
        size_t need = (r->adlen > r->mlen ? r->adlen : r->mlen) + 128;
        if (need > cap) {
            free(ad), free(m), free(c), free(p);
            cap = need * 2;
            ad = xalloc(cap), m = xalloc(cap), c = xalloc(cap), p = xalloc(cap);
        }
        cur[0] = i, cur[1] = r->adlen, cur[2] = r->mlen;
        stat_cases++;
        memcpy(m, t.blob + r->m, r->mlen);
        if (r->kind == 1) {
            what = "crypto_hash";
            memset(c, 0x5a, 32);
            ret = HASH(c, m, r->mlen);
            if (ret != 0 || memcmp(c, t.blob + r->ct, 32)) {
                HEX(hi_, m, r->mlen); HEX(ho, c, 32); HEX(he, t.blob + r->ct, 32);
                fail("inlen=%u ret=%d in=%s got=%s model=%s", r->mlen, ret, hi_, ho, he);
            }
            continue;
        }
        memcpy(k, t.blob + r->k, 16), memcpy(n, t.blob + r->n, 16), memcpy(ad, t.blob + r->ad, r->adlen);
        if (w & 1) {
            what = "encrypt";
            memset(c, 0x5a, r->mlen + 16);
            ret = ENC(c, &len, m, r->mlen, ad, r->adlen, n, k);
            int badc = memcmp(c, t.blob + r->ct, r->mlen) != 0, badt = memcmp(c + r->mlen, r->tag, 16) != 0;
            if (ret != 0 || badc || badt) {
                HEX(hk, k, 16); HEX(hn, n, 16); HEX(ha, ad, r->adlen); HEX(hm, m, r->mlen); HEX(ht, c + r->mlen, 16); HEX(he, r->tag, 16);
                size_t at = 0;
                while (badc && at < r->mlen && c[at] == t.blob[r->ct + at]) at++;
                fail("adlen=%u mlen=%u ret=%d body %s (first difference at %ld) tag %s k=%s n=%s ad=%s m=%s tag=%s modeltag=%s", r->adlen, r->mlen, ret,
                     badc ? "wrong" : "right", badc ? (long)at : -1L, badt ? "wrong" : "right", hk, hn, ha, hm, ht, he);
            }
        }
        if (w & 2) {
            HEX(hk, k, 16); HEX(hn, n, 16);
            what = "encrypt then decrypt";
            ret = ENC(c, &len, m, r->mlen, ad, r->adlen, n, k);
            if (ret != 0 || len != (ull)r->mlen + 16)
                fail("encryption: adlen=%u mlen=%u ret=%d clen=%llu (want 0 and mlen+16) k=%s n=%s", r->adlen, r->mlen, ret, len, hk, hn);
            int pass;
            for (pass = 0; pass < 2; pass++) {
                if (pass) {
                    what = "decrypt the model's ciphertext";
                    if (!memcmp(c, t.blob + r->ct, r->mlen) && !memcmp(c + r->mlen, r->tag, 16)) break; /* the same call */
                    memcpy(c, t.blob + r->ct, r->mlen), memcpy(c + r->mlen, r->tag, 16);
                }
                memset(p, 0xa5, r->mlen + 1);
                len = 0xdeadbeef;
                ret = DEC(p, &len, c, (ull)r->mlen + 16, ad, r->adlen, n, k);
                if (ret != 0 || len != r->mlen || memcmp(p, m, r->mlen))
                    fail("adlen=%u mlen=%u ret=%d mlen out=%llu plaintext %s k=%s n=%s", r->adlen, r->mlen, ret, len,
                         memcmp(p, m, r->mlen) ? "wrong" : "right", hk, hn);
            }
        }
    }
    return 0;
}

/* ------------------------------------------------------------------ tampering
   forge FILE level       C03: every tampered input is refused
   release FILE level     C04: and the plaintext buffer is not written meanwhile */

static int releasing;
static u8 *pm;             /* plaintext buffer; write-protected when releasing */
static size_t pmcap;
static ull nclass[24];
static const char *clsname[24] = { "tag bit", "tag byte value", "tag byte pair xor", "tag byte pair additive", "tag byte subset", "constant tag", "tag words",
    "tag prefix/suffix", "ciphertext bit", "ad bit", "nonce bit", "key bit", "truncation", "extension", "ad length", "boundary shift", "swap", "tag rotation", "multi-site" };

static void attempt(int cls, long a, long b, const u8 *c, ull clen, const u8 *ad, ull adlen, const u8 *n, const u8 *k)
{
    ull ml = 0;
    int r;
    cur[1] = cls, cur[2] = a, cur[3] = b;
    what = clsname[cls];
    nclass[cls]++;
    stat_cases++;
    if (!releasing) {
        r = DEC(pm, &ml, c, clen, ad, adlen, n, k);
        if (r == 0) {
            HEX(hk, k, 16); HEX(hn, n, 16); HEX(hc, c, clen); HEX(ha, ad, adlen);
            fail("accepted a forgery: adlen=%llu clen=%llu k=%s n=%s ad=%s c=%s", adlen, clen, hk, hn, ha, hc);
        }
        return;
    }
    int sig = sigsetjmp(faultjmp, 1);
    if (sig == 0) {
        fault_armed = 1;
        r = DEC(pm, &ml, c, clen, ad, adlen, n, k);
        fault_armed = 0;
        return;     /* nothing was written; whether it was right to accept is C03's question */
    }
    if (fault_addr < pm || fault_addr >= pm + pmcap) {
        fail("signal %d at %p while refusing (not the plaintext buffer)", sig, fault_addr);
        return;
    }
    /* it writes plaintext: a violation if the call goes on to reject */
    u8 *q = malloc(clen + 64);
    r = DEC(q, &ml, c, clen, ad, adlen, n, k);
    free(q);
    if (r != 0) {
        HEX(hk, k, 16); HEX(hn, n, 16); HEX(hc, c, clen);
        fail("plaintext buffer written (offset %ld) although the call rejects: adlen=%llu clen=%llu k=%s n=%s c=%s",
             (long)(fault_addr - pm), adlen, clen, hk, hn, hc);
    }
}

static void tamper(const trec_t *r, const u8 *blob, const trec_t *other, int level)
{
    /* level 0: slow implementations, 1: normal, 2: fast or thorough */
    ull al = r->adlen, ml = r->mlen, cl = ml + 16;
    u8 k[16], n[16], T[16];
    u8 *ad = xalloc(al + ml + 128), *c = xalloc(al + ml + 256), *x = xalloc(al + ml + 256), *y = xalloc(al + ml + 256);
    int i, j, d, b;
    int special = r->set == 100;
    ull o;
    memcpy(k, blob + r->k, 16), memcpy(n, blob + r->n, 16), memcpy(ad, blob + r->ad, al);
    memcpy(c, blob + r->ct, ml), memcpy(c + ml, r->tag, 16);
    memcpy(T, r->tag, 16);
#define WITH(cls, a, b) attempt(cls, a, b, x, cl, ad, al, n, k)
#define FRESH memcpy(x, c, cl)
    if (level < 0) {    /* a few of every kind */
        for (i = 0; i < 128; i++) { FRESH; x[ml + i / 8] ^= (u8)(1 << i % 8); WITH(0, i, 0); }
        for (i = 0; i < 16; i++) {
            FRESH; for (j = i; j < 16; j++) x[ml + j] ^= 0xff;
            WITH(7, i, 2);
            FRESH; for (j = 0; j <= i; j++) x[ml + j] ^= 1;
            WITH(7, i, 7);
            for (j = i + 1; j < 16; j++)
                for (d = 1; d <= 128; d += 127) {
                    FRESH; x[ml + i] ^= (u8)d, x[ml + j] ^= (u8)d; WITH(2, i * 16 + j, d);
                    FRESH; x[ml + i] += (u8)d, x[ml + j] -= (u8)d; WITH(3, i * 16 + j, d);
                }
        }
        for (i = 0; i < 128; i += 5) { n[i / 8] ^= (u8)(1 << i % 8); WITH(10, i, 0); n[i / 8] ^= (u8)(1 << i % 8); }
        for (i = 0; i < 128; i += 5) { k[i / 8] ^= (u8)(1 << i % 8); WITH(11, i, 0); k[i / 8] ^= (u8)(1 << i % 8); }
        for (o = 0; o < 8 * ml; o += 3) { FRESH; x[o / 8] ^= (u8)(1 << o % 8); WITH(8, (long)o, 0); }
        FRESH;
        for (o = 0; o < 8 * al; o += 3) { ad[o / 8] ^= (u8)(1 << o % 8); WITH(9, (long)o, 0); ad[o / 8] ^= (u8)(1 << o % 8); }
        goto out;
    }
    /* single wrong bits, wrong byte values */
    for (i = 0; i < 128; i++) { FRESH; x[ml + i / 8] ^= (u8)(1 << i % 8); WITH(0, i, 0); }
    for (i = 0; i < 16; i++)
        for (d = 1; d < 256; d++) {
            if (level == 0 && (special || ml + al > 60) && d != 1 && d != 255 && d != T[i] && (T[i] ^ d) != 0xff && d != 0x80) continue;
            if (level == 1 && special && d % 16 && d != T[i]) continue;
            FRESH; x[ml + i] ^= (u8)d; WITH(1, i, d);
        }
    /* runs of wrong bytes: right prefix or suffix of every length, rest 00, ff, inverted, or inverted low bit */
    for (i = 0; i <= 15; i++)
        for (d = 0; d < 4; d++) {
            FRESH;
            for (j = i; j < 16; j++) x[ml + j] = d == 0 ? 0 : d == 1 ? 0xff : d == 2 ? (u8)~T[j] : T[j] ^ 1;
            if (memcmp(x + ml, T, 16)) WITH(7, i, d);
            FRESH;
            for (j = 0; j <= i; j++) x[ml + j] = d == 0 ? 0 : d == 1 ? 0xff : d == 2 ? (u8)~T[j] : T[j] ^ 1;
            if (memcmp(x + ml, T, 16)) WITH(7, i, d + 4);
        }
    if (r->set == 80 || (level == 2 && !special && ml + al < 40)) {
        /* pairs of wrong bytes whose differences cancel under xor, or under addition */
        for (i = 0; i < 16; i++)
            for (j = i + 1; j < 16; j++)
                for (d = 1; d < 256; d++) {
                    if (level == 0 && (d & (d - 1)) && d != 255) continue;
                    FRESH; x[ml + i] ^= (u8)d, x[ml + j] ^= (u8)d; WITH(2, i * 16 + j, d);
                    FRESH; x[ml + i] += (u8)d, x[ml + j] -= (u8)d; WITH(3, i * 16 + j, d);
                    FRESH; x[ml + i] ^= (u8)d, x[ml + j] ^= (u8)(256 - d); WITH(3, i * 16 + j, d + 256);
                }
        /* every subset of wrong bytes */
        static const u8 df[4] = { 0x80, 0x01, 0xff, 0x55 };
        int nd = level == 0 ? 0 : level == 1 ? 1 : r->set == 80 ? 4 : 1;
        for (b = 0; b < nd; b++)
            for (i = 1; i < 65536; i++) {
                FRESH;
                for (j = 0; j < 16; j++) if (i >> j & 1) x[ml + j] ^= df[b];
                WITH(4, i, b);
            }
        if (level == 0)     /* all contiguous and periodic subsets */
            for (i = 1; i < 65536; i++) {
                int runs = __builtin_popcount(i ^ (i << 1 & 0xffff));
                if (runs > 2 && i != 0x5555 && i != 0xaaaa && (i & 0xff) != i >> 8) continue;
                FRESH;
                for (j = 0; j < 16; j++) if (i >> j & 1) x[ml + j] ^= 0x80;
                WITH(4, i, 0);
            }
        for (d = 0; d < 256; d++) {
            FRESH; memset(x + ml, d, 16);
            if (memcmp(x + ml, T, 16)) WITH(5, d, 0);
        }
        /* words of the tag: exchanged, differing alike, copied */
        for (b = 2; b <= 8; b *= 2)
            for (i = 0; i < 16; i += b)
                for (j = 0; j < 16; j += b) {
                    if (i == j) continue;
                    FRESH; memcpy(x + ml + i, T + j, b);
                    if (memcmp(x + ml, T, 16)) WITH(6, i * 16 + j, b);
                    memcpy(x + ml + j, T + i, b);
                    if (memcmp(x + ml, T, 16)) WITH(6, i * 16 + j, b + 16);
                    for (d = 0; d < 8 * b; d++) {
                        FRESH; x[ml + i + d / 8] ^= (u8)(1 << d % 8), x[ml + j + d / 8] ^= (u8)(1 << d % 8);
                        WITH(6, i * 16 + j, 64 * b + d);
                    }
                }
        for (i = 1; i < 16; i++) {
            FRESH;
            for (j = 0; j < 16; j++) x[ml + j] = T[(j + i) % 16];
            if (memcmp(x + ml, T, 16)) WITH(17, i, 0);
        }
        FRESH; for (j = 0; j < 16; j++) x[ml + j] = T[15 - j];
        if (memcmp(x + ml, T, 16)) WITH(17, 16, 0);
        FRESH; memcpy(x + ml, k, 16); WITH(17, 17, 0);
        FRESH; memcpy(x + ml, n, 16); WITH(17, 18, 0);
    }
    if (!special) {
        ull step = 1;
        if (ml + al > 300) step = level == 2 ? 5 : 61;
        /* every bit of ciphertext, associated data, nonce and key */
        for (o = 0; o < 8 * ml; o += (o < 128 || o > 8 * ml - 128) ? 1 : step) { FRESH; x[o / 8] ^= (u8)(1 << o % 8); WITH(8, (long)o, 0); }
        FRESH;
        for (o = 0; o < 8 * al; o += (o < 128 || o > 8 * al - 128) ? 1 : step) { ad[o / 8] ^= (u8)(1 << o % 8); WITH(9, (long)o, 0); ad[o / 8] ^= (u8)(1 << o % 8); }
        for (i = 0; i < 128; i++) { n[i / 8] ^= (u8)(1 << i % 8); WITH(10, i, 0); n[i / 8] ^= (u8)(1 << i % 8); }
        for (i = 0; i < 128; i++) { k[i / 8] ^= (u8)(1 << i % 8); WITH(11, i, 0); k[i / 8] ^= (u8)(1 << i % 8); }
        /* a wrong tag together with a wrong body */
        for (i = 0; i < 16 && ml; i++) { FRESH; x[0] ^= 1, x[ml + i] ^= 1; WITH(18, i, 0); x[ml - 1] ^= 0x80; WITH(18, i, 1); }
        /* truncation: drop bytes at the end, in front of the tag, at the start */
        for (o = 1; o <= ml; o += o < 70 ? 1 : step) {
            attempt(12, (long)o, 0, c, cl - o, ad, al, n, k);
            memcpy(x, c, ml - o), memcpy(x + ml - o, T, 16);
            attempt(12, (long)o, 1, x, cl - o, ad, al, n, k);
            attempt(12, (long)o, 2, c + o, cl - o, ad, al, n, k);
        }
        /* extension by padding look-alikes, in front of the tag, behind it, at the start */
        for (o = 1; o <= 40; o++)
            for (d = 0; d < 4; d++) {
                for (j = 0; j < (int)o; j++) y[j] = d == 0 ? 0 : d == 1 ? (j == 0 ? 0x80 : 0) : d == 2 ? 0xff : (j == (int)o - 1 ? 1 : 0);
                memcpy(x, c, ml), memcpy(x + ml, y, o), memcpy(x + ml + o, T, 16);
                attempt(13, (long)o, d, x, cl + o, ad, al, n, k);
                memcpy(x, c, cl), memcpy(x + cl, y, o);
                attempt(13, (long)o, d + 4, x, cl + o, ad, al, n, k);
                memcpy(x, y, o), memcpy(x + o, c, cl);
                attempt(13, (long)o, d + 8, x, cl + o, ad, al, n, k);
                memcpy(x, ad, al), memcpy(x + al, y, o);
                attempt(14, (long)o, d, c, cl, x, al + o, n, k);
                memcpy(x, y, o), memcpy(x + o, ad, al);
                attempt(14, (long)o, d + 4, c, cl, x, al + o, n, k);
            }
        for (o = 1; o <= al; o += o < 70 ? 1 : step) {
            attempt(14, (long)o, 8, c, cl, ad, al - o, n, k);
            attempt(14, (long)o, 9, c, cl, ad + o, al - o, n, k);
        }
        /* the boundary between associated data and ciphertext, moved by every distance in both directions */
        memcpy(y, ad, al), memcpy(y + al, c, cl);
        for (o = 0; o <= al + ml; o += o < 200 ? 1 : step)
            if (o != al) attempt(15, (long)o, 0, y + o, al + cl - o, y, o, n, k);
        if (al && ml) {
            /* exchanged roles */
            memcpy(x, ad, al), memcpy(x + al, T, 16);
            attempt(16, 0, 0, x, al + 16, c, ml, n, k);
        }
        attempt(16, 1, 0, c, cl, ad, al, k, n);
        if (other) {
            FRESH; memcpy(x + ml, other->tag, 16);
            if (memcmp(x + ml, T, 16)) WITH(16, 2, 0);
        }
    }
out:
    free(ad), free(c), free(x), free(y);
}

static int mode_forge(int argc, char **argv)
{
    tfile_t t;
    uint32_t i;
    int level = atoi(argv[3]);
    (void)argc;
    topen(argv[2], &t);
    pmcap = 1 << 20;
    pm = mmap(NULL, pmcap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(pm + 4096, pmcap, releasing ? PROT_READ : PROT_READ | PROT_WRITE);
    if (releasing) pmcap += 8192; else pm += 4096;
    u8 *p0 = pm;
    ull n = 0;
    for (i = 0; i < t.h->count; i++) {
        trec_t *r = &t.r[i];
        if (r->tier && level <= 0) continue;
        if (level < 0 && i % 7 != 1) continue;
        if (level == 0 && r->set == 100 && i % 8) continue;
        cur[0] = i;
        if (releasing) pm = p0 + 4096 * (i % 2 ? 1 : 0) + 4096;
        /* the honest input is accepted, so that the refusals below mean something */
        u8 *c = xalloc(r->mlen + 16), *m = xalloc(r->mlen + 16);
        ull ml = 0;
        memcpy(c, t.blob + r->ct, r->mlen), memcpy(c + r->mlen, r->tag, 16);
        if (DEC(m, &ml, c, (ull)r->mlen + 16, t.blob + r->ad, r->adlen, t.blob + r->n, t.blob + r->k) == 0) n++;
        free(c), free(m);
        if (releasing) { pm = p0; }
        tamper(r, t.blob, i ? &t.r[i - 1] : NULL, level);
    }
    printf("STAT honest_accepted %llu\n", n);
    for (i = 0; i < 24; i++) if (nclass[i]) printf("STAT class:%s %llu\n", clsname[i], nclass[i]);
    return 0;
}

/* lengths around which arithmetic changes */
static int notable(ull l)
{
    ull p;
    for (p = 512; p <= 1 << 20; p <<= 1)
        if (l + 2 >= p && l <= p + 2) return 1;
    return l % 500 == 0 && l < 12000;
}

/* rejlen MAX BIG RELEASE: every ciphertext length and every associated-data length up to MAX, and notable ones up to BIG, refused
   for several reasons; with RELEASE the plaintext buffer is write-protected */
static int mode_rejlen(int argc, char **argv)
{
    int max = atoi(argv[2]), big = atoi(argv[3]), l, v, side;
    u8 k[16], n[16], *ad = xalloc(big + 64), *m = xalloc(big + 64), *c = xalloc(big + 64), *x = xalloc(big + 64), *xa = xalloc(big + 64);
    ull len;
    (void)argc;
    rfill(k, 16), rfill(n, 16), rfill(ad, big), rfill(m, big);
    releasing = atoi(argv[4]);
    pmcap = (big + 3 * 4096) & ~4095;
    pm = mmap(NULL, pmcap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(pm + 4096, pmcap, releasing ? PROT_READ : PROT_READ | PROT_WRITE);
    pm += 4096;
    for (side = 0; side < 2; side++)
        for (l = 0; l <= big; l++) {
            int al = side ? l : l % 20, ml = side ? l % 20 : l;
            if (l > max && !notable(l)) continue;
            cur[0] = l, cur[4] = side;
            len = 0;
            ENC(c, &len, m, ml, ad, al, n, k);
            memcpy(xa, ad, al);
            for (v = 0; v < 11; v++) {
                ull cl = ml + 16;
                u8 save;
                memcpy(x, c, ml + 16);
                if (v == 0) x[ml + l % 16] ^= 1;
                else if (v == 1) x[ml + 15 - l % 16] ^= 0x80;
                else if (v == 2) { if (!ml) continue; x[0] ^= 1; }
                else if (v == 3) { if (!ml) continue; x[ml - 1] ^= 0x80; }
                else if (v == 4) memset(x + ml, 0, 16);
                else if (v == 5) x[ml + 7] ^= 0xff, x[ml + 8] ^= 0xff;
                else if (v == 6) { if (!ml) continue; x[ml / 2] ^= 4; }
                else if (v == 7 || v == 8 || v == 9) {
                    int at = v == 7 ? 0 : v == 8 ? al - 1 : al / 3;
                    if (!al || (!side && v != 8)) continue;
                    save = xa[at], xa[at] ^= 0x20;
                    attempt(9, l, v, x, cl, xa, al, n, k);
                    xa[at] = save;
                    continue;
                } else { if (!ml) continue; cl--; }
                attempt(v == 0 || v == 1 ? 0 : v == 2 || v == 3 || v == 6 ? 8 : v == 4 ? 5 : v == 10 ? 12 : 2, l, v, x, cl, ad, al, n, k);
            }
        }
    cur[4] = 0;
    return 0;
}

/* ------------------------------------------------------------------ memory regions */

typedef struct { u8 *rw, *view; size_t size; } region_t;

static size_t PG = 4096;
static void region(region_t *g, const char *name, size_t size, int prot)
{
    size_t sz = (size + PG - 1) & ~(PG - 1), guard = 16 * PG;
    int fd = memfd_create("region", 0);
    if (fd < 0 || ftruncate(fd, sz)) { printf("ERROR memfd\n"); exit(2); }
    u8 *b = mmap(NULL, sz + 2 * guard, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g->view = mmap(b + guard, sz, prot, MAP_SHARED | MAP_FIXED, fd, 0);
    g->rw = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    g->size = sz;
    if (b == MAP_FAILED || g->view == MAP_FAILED || g->rw == MAP_FAILED) { printf("ERROR mmap\n"); exit(2); }
    close(fd);
    if (nranges < 16) ranges[nranges].name = name, ranges[nranges].base = g->view, ranges[nranges++].size = sz;
}
/* the buffer of n bytes that ends at the end (or starts at the start) of the region: harness side, callee side */
#define RWP(g, n, end) ((g).rw + ((end) ? (g).size - (n) : 0))
#define VP(g, n, end) ((g).view + ((end) ? (g).size - (n) : 0))

static int canary(const region_t *g, const u8 *view, size_t n, const char *name)
{
    size_t o = view - g->view, i;
    for (i = 0; i < g->size; i++)
        if ((i < o || i >= o + n) && g->rw[i] != 0xa5) {
            fail("byte at offset %ld of the %s buffer (length %zu) was written", (long)i - (long)o, name, n);
            return 1;
        }
    return 0;
}

/* guard MAXLEN(ad) MAXLEN(m) STEP EXTRA FAR: C05 */
static int mode_guard(int argc, char **argv)
{
    int amax = atoi(argv[2]), mmax = atoi(argv[3]), step = atoi(argv[4]), extra = atoi(argv[5]);
    region_t K, N, A, M, C, L, MO, CI;
    size_t cap = 2 * 4096;
    int end, pass;
    (void)argc;
    int far = atoi(argv[6]);
    if (far < extra) far = extra;
    if (far > (int)cap - 64) cap = far + 8192;
    region(&K, "key", 16, PROT_READ), region(&N, "nonce", 16, PROT_READ), region(&A, "ad", cap, PROT_READ);
    region(&M, "plaintext input", cap, PROT_READ), region(&C, "ciphertext output", cap, PROT_READ | PROT_WRITE);
    region(&L, "length output", 8, PROT_READ | PROT_WRITE), region(&MO, "plaintext output", cap, PROT_READ | PROT_WRITE);
    region(&CI, "ciphertext input", cap, PROT_READ);
    rfill(K.rw, K.size), rfill(N.rw, N.size), rfill(A.rw, A.size), rfill(M.rw, M.size);
    u8 *lp = xalloc(4096);
    for (end = 1; end >= 0; end--)
        for (pass = 0; pass < 2; pass++) {
            int a, m;
            /* pass 0: the grid of all pairs; pass 1: longer lengths of one buffer at a time */
            for (a = 0; a <= (pass ? far : amax); a += pass && a < extra ? (a < 300 ? 1 : 37) : 1)
                for (m = 0; m <= (pass ? 3 : mmax); m++) {
                    if (a > extra && (!notable(a) || (m != 3 && m != 0))) continue;
                    int la, lm, v;
                    if (!pass && step > 1 && (a * 7 + m) % step && a > 20 && m > 20) continue;
                    for (v = 0; v < (pass ? 2 : 1); v++) {
                        la = v ? m : a, lm = v ? a : m;
                        ull *cl = (ull *)VP(L, 8, end), *clr = (ull *)RWP(L, 8, end);
                        u8 *c = VP(C, lm + 16, end), *mo = VP(MO, lm, end);
                        int r;
                        cur[0] = end, cur[1] = la, cur[2] = lm;
                        stat_cases++;
                        memset(C.rw, 0xa5, C.size), memset(L.rw, 0xa5, L.size);
                        what = "encrypt";
                        ENC(c, cl, VP(M, lm, end), lm, VP(A, la, end), la, VP(N, 16, end), VP(K, 16, end));
                        canary(&C, c, lm + 16, "ciphertext");
                        canary(&L, (u8 *)cl, 8, "clen");
                        what = "decrypt";
                        memcpy(RWP(CI, lm + 16, end), RWP(C, lm + 16, end), lm + 16);
                        memset(MO.rw, 0xa5, MO.size), memset(L.rw, 0xa5, L.size);
                        r = DEC(mo, cl, VP(CI, lm + 16, end), lm + 16, VP(A, la, end), la, VP(N, 16, end), VP(K, 16, end));
                        canary(&MO, mo, lm, "plaintext");
                        canary(&L, (u8 *)cl, 8, "mlen");
                        (void)r, (void)clr;
                        what = "decrypt a forgery";
                        RWP(CI, lm + 16, end)[lm + (la + lm) % 16] ^= 1;
                        memset(MO.rw, 0xa5, MO.size), memset(L.rw, 0xa5, L.size);
                        DEC(mo, cl, VP(CI, lm + 16, end), lm + 16, VP(A, la, end), la, VP(N, 16, end), VP(K, 16, end));
                        canary(&MO, mo, lm, "plaintext");
                        if (lm < 16) {
                            what = "decrypt a short input";
                            memset(MO.rw, 0xa5, MO.size), memset(L.rw, 0xa5, L.size);
                            DEC(VP(MO, 0, end), cl, VP(CI, lm, end), lm, VP(A, la, end), la, VP(N, 16, end), VP(K, 16, end));
                            canary(&MO, VP(MO, 0, end), 0, "plaintext");
                        }
                    }
                }
            if (HAS_HASH)
                for (a = 0; a <= (pass ? far : 2 * amax); a += pass && a < extra ? (a < 300 ? 1 : 37) : 1) {
                    if (a > extra && a > 2 * amax && !notable(a)) continue;
                    what = "crypto_hash";
                    cur[0] = end, cur[1] = a, cur[2] = -1;
                    stat_cases++;
                    memset(C.rw, 0xa5, C.size);
                    HASH(VP(C, 32, end), VP(A, a, end), a);
                    canary(&C, VP(C, 32, end), 32, "digest");
                }
        }
    free(lp);
    return 0;
}

/* short MAXAD BIG: C06 */
static int mode_short(int argc, char **argv)
{
    int amax = atoi(argv[2]), big = atoi(argv[3]), end, cl, a, p, i;
    region_t K, N, A, CI, MO, L;
    (void)argc;
    region(&K, "key", 16, PROT_READ), region(&N, "nonce", 16, PROT_READ), region(&A, "ad", 77824, PROT_READ);
    region(&CI, "ciphertext input", 4096, PROT_READ), region(&MO, "plaintext output", 4096, PROT_READ), region(&L, "length output", 8, PROT_READ | PROT_WRITE);
    rfill(K.rw, K.size), rfill(N.rw, N.size), rfill(A.rw, A.size);
    for (end = 1; end >= 0; end--)
        for (a = 0; a <= amax + 8; a++) {
            int la = a <= amax ? a : (int[]){ 255, 256, 1024, 4096, 8191, 65535, 65536, 65541 }[a - amax - 1];
            if (la > 8191 && !big) continue;
            u8 ct[64];
            ull x = 0;
            /* a real ciphertext of the empty message and of a 3-byte message, to cut pieces from */
            ENC(ct, &x, (const u8 *)"abc", 0, VP(A, la, end), la, VP(N, 16, end), VP(K, 16, end));
            ENC(ct + 16, &x, (const u8 *)"abc", 3, VP(A, la, end), la, VP(N, 16, end), VP(K, 16, end));
            for (cl = 0; cl < 16; cl++)
                for (p = 0; p < 12; p++) {
                    u8 *c = RWP(CI, cl, end), *v = VP(CI, cl, end);
                    ull *lp = (ull *)VP(L, 8, end);
                    static const ull pre[3] = { 0, 16, ~0ULL };
                    memset(CI.rw, 0x11, CI.size);
                    for (i = 0; i < cl; i++)
                        c[i] = p == 0 ? 0 : p == 1 ? 0xff : p == 2 ? ct[i] : p == 3 ? ct[16 - cl + i] : p == 4 ? ct[16 + i] :
                               p == 5 ? ct[16 + 19 - cl + i] : p == 6 ? 0x80 : p == 7 ? (u8)i : p == 8 ? RWP(K, 16, end)[i] :
                               p == 9 ? RWP(N, 16, end)[i] : p == 10 ? (u8)(ct[i] ^ 1) : (i == 0 ? 0x80 : 0);
                    /* what lies behind the input completes it to a valid ciphertext where possible */
                    if (!end && p == 2) memcpy(CI.rw, ct, 16);
                    if (!end && p == 4) memcpy(CI.rw, ct + 16, 19);
                    memset(MO.rw, 0xa5, MO.size);
                    *(ull *)RWP(L, 8, end) = pre[p % 3];
                    cur[0] = end, cur[1] = la, cur[2] = cl, cur[3] = p;
                    what = "decrypt a short input";
                    stat_cases++;
                    u8 *mo = p % 2 ? VP(MO, 0, 1) : MO.view + 64;
                    int r = DEC(mo, lp, v, cl, VP(A, la, end), la, VP(N, 16, end), VP(K, 16, end));
                    if (r == 0) fail("accepted a ciphertext of %d bytes (adlen=%d)", cl, la);
                    canary(&MO, mo, 0, "plaintext");
                }
        }
    return 0;
}

/* ------------------------------------------------------------------ align: C07 */

static const int SHAPES8[][2] = { { 0, 0 }, { 1, 1 }, { 8, 8 }, { 9, 15 }, { 29, 35 }, { 18, 18 }, { 19, 37 }, { 64, 80 } };

static u8 *arena_at(ull hint, size_t size)
{
    u8 *p = mmap((void *)(uintptr_t)hint, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (hint ? 0x100000 /* FIXED_NOREPLACE */ : 0), -1, 0);
    return p == MAP_FAILED ? NULL : p;
}

/* places the buffers at the given addresses, runs encryption, decryption and a refused decryption, and compares with base */
static void place_check(u8 *k, u8 *n, u8 *ad, int al, u8 *m, int ml, u8 *c, const u8 *K0, const u8 *N0, const u8 *A0, const u8 *M0, const u8 *C0, int dec)
{
    ull len = 0;
    int r;
    stat_cases++;
    memset(c, 0x33, ml + 16);
    memcpy(k, K0, 16), memcpy(n, N0, 16), memcpy(ad, A0, al), memcpy(m, M0, ml);
    what = "encrypt";
    r = ENC(c, &len, m, ml, ad, al, n, k);
    if (r != 0 || memcmp(c, C0, ml + 16)) fail("adlen=%d mlen=%d: encryption depends on where the buffers lie (ret=%d)", al, ml, r);
    if (!dec) return;
    memcpy(c, C0, ml + 16), memcpy(k, K0, 16), memcpy(n, N0, 16), memcpy(ad, A0, al);
    memset(m, 0x44, ml);
    what = "decrypt";
    r = DEC(m, &len, c, ml + 16, ad, al, n, k);
    if (r != 0 || memcmp(m, M0, ml)) fail("adlen=%d mlen=%d: decryption depends on where the buffers lie (ret=%d)", al, ml, r);
    c[ml + 15] ^= 1;
    what = "decrypt a forgery";
    r = DEC(m, &len, c, ml + 16, ad, al, n, k);
    if (r == 0) fail("adlen=%d mlen=%d: a forgery is accepted depending on where the buffers lie", al, ml);
}

static void perms(int *p, int n, int at, void (*f)(int *))
{
    int i, t;
    if (at == n) { f(p); return; }
    for (i = at; i < n; i++) {
        t = p[at], p[at] = p[i], p[i] = t;
        perms(p, n, at + 1, f);
        t = p[at], p[at] = p[i], p[i] = t;
    }
}

static u8 *AR, K0[16], N0[16], A0[1200], M0[1200], C0[1300];
static int PAL, PML, PST;
static void adjacent(int *p)
{
    u8 *at[5];
    int size[5] = { 16, 16, PAL, PML, PML + 16 }, o = PST, i;
    for (i = 0; i < 5; i++) at[p[i]] = AR + o, o += size[p[i]];
    cur[4] = p[0] * 10000 + p[1] * 1000 + p[2] * 100 + p[3] * 10 + p[4];
    place_check(at[0], at[1], at[2], PAL, at[3], PML, at[4], K0, N0, A0, M0, C0, 1);
}

static int mode_align(int argc, char **argv)
{
    int level = atoi(argv[2]), s, i, j, a, b, ar;
    int width = level == 0 ? 8 : 16, nsh = level == 0 ? 5 : 8;
    ull len;
    (void)argc;
    u8 *arenas[4] = { arena_at(0, 65536) };
    int na = 1;
    if (sizeof(void *) == 8) {
        /* below 2^31, and across a multiple of 2^32 */
        u8 *p = arena_at(0x30000000, 65536), *q = arena_at(0x2600000000ULL - 8192, 65536);
        if (p) arenas[na++] = p;
        if (q) arenas[na++] = q;
    } else {
        u8 *p = arena_at(0x90000000 - 8192, 65536);     /* across 2^31 and beyond */
        u8 *q = arena_at(0x80000000 - 8192, 65536);
        if (p) arenas[na++] = p;
        if (q) arenas[na++] = q;
    }
    printf("STAT arenas %d\n", na);
    rfill(K0, 16), rfill(N0, 16), rfill(A0, sizeof A0), rfill(M0, sizeof M0);
    for (s = 0; s < nsh; s++) {
        int al = SHAPES8[s][0], ml = SHAPES8[s][1];
        cur[0] = s;
        u8 *k = xalloc(16), *n = xalloc(16), *ad = xalloc(al), *m = xalloc(ml), *c = xalloc(ml + 16);
        memcpy(k, K0, 16), memcpy(n, N0, 16), memcpy(ad, A0, al), memcpy(m, M0, ml);
        ENC(c, &len, m, ml, ad, al, n, k);
        memcpy(C0, c, ml + 16);
        for (ar = 0; ar < na; ar++) {
            u8 *base = ar ? arenas[ar] + 8192 - 512 : arenas[ar];
            u8 *slot[5];
            for (i = 0; i < 5; i++) slot[i] = arenas[0] + 1024 * (i + 1);
            cur[1] = ar;
            /* every pair of buffers at every pair of offsets (includes every single one) */
            for (i = 0; i < 5; i++)
                for (j = i + 1; j < 5; j++)
                    for (a = 0; a < width; a++)
                        for (b = 0; b < width; b++) {
                            u8 *p[5];
                            int q;
                            if (ar && (a % 3 || b % 3)) continue;
                            for (q = 0; q < 5; q++) p[q] = slot[q];
                            if (ar) p[i] = base + 512 - 19 + a, p[j] = base + 512 + 200 - (j == 4 ? 0 : 0) + b;
                            else p[i] += a, p[j] += b;
                            cur[2] = i * 10 + j, cur[3] = a * 100 + b;
                            place_check(p[0], p[1], p[2], al, p[3], ml, p[4], K0, N0, A0, M0, C0, 1);
                        }
            for (a = 0; a < 16; a++) {      /* all buffers misaligned alike */
                cur[2] = 99, cur[3] = a;
                place_check(slot[0] + a, slot[1] + a, slot[2] + a, al, slot[3] + a, ml, slot[4] + a, K0, N0, A0, M0, C0, 1);
            }
            if (ar)     /* each buffer across the boundary at every distance */
                for (i = 0; i < 5; i++)
                    for (a = 0; a <= (i < 2 ? 16 : i == 2 ? al : i == 3 ? ml : ml + 16); a++) {
                        u8 *p[5];
                        int q;
                        for (q = 0; q < 5; q++) p[q] = slot[q];
                        p[i] = arenas[ar] + 8192 - a;
                        cur[2] = 200 + i, cur[3] = a;
                        place_check(p[0], p[1], p[2], al, p[3], ml, p[4], K0, N0, A0, M0, C0, 1);
                    }
        }
        /* all orders of gaplessly adjacent buffers */
        if (s >= 1 && s <= (level == 0 ? 4 : 6)) {
            int p[5] = { 0, 1, 2, 3, 4 };
            AR = arenas[0], PAL = al, PML = ml;
            for (PST = 0; PST < (level == 0 ? 2 : 8); PST++) { cur[1] = 50, cur[2] = PST, cur[3] = 0; perms(p, 5, 0, adjacent); }
            cur[4] = 0;
        }
        /* input buffers that overlap or coincide: every choice of offsets from a small set in one arena */
        {
            static const int off[6] = { 0, 1, 7, 8, 16, 24 };
            int w, x, y, z, no = level == 0 ? 4 : 6;
            u8 *o = arenas[0] + 8192, *out = arenas[0] + 16384;
            for (w = 0; w < no; w++) for (x = 0; x < no; x++) for (y = 0; y < no; y++) for (z = 0; z < no; z++) {
                int r;
                rs = 777 + s;
                rfill(o, 256);
                u8 *kp = o + off[w], *np = o + off[x], *ap = o + off[y], *mp = o + off[z];
                cur[1] = 60, cur[2] = w, cur[3] = x, cur[4] = y, cur[5] = z;
                what = "encrypt with overlapping inputs";
                stat_cases++;
                memcpy(k, kp, 16), memcpy(n, np, 16), memcpy(ad, ap, al), memcpy(m, mp, ml);
                ENC(c, &len, m, ml, ad, al, n, k);
                r = ENC(out, &len, mp, ml, ap, al, np, kp);
                if (r != 0 || memcmp(out, c, ml + 16)) fail("adlen=%d mlen=%d ret=%d: overlapping input buffers change the result", al, ml, r);
                /* decryption with key, nonce and associated data overlapping; with associated data inside the ciphertext */
                what = "decrypt with overlapping inputs";
                memset(m, 0, ml);
                r = DEC(m, &len, out, ml + 16, ap, al, np, kp);
                if (r != 0 || memcmp(m, mp, ml)) fail("adlen=%d mlen=%d ret=%d: overlapping input buffers change decryption", al, ml, r);
                if (z == 0 && ml) {
                    int ao = off[y] < ml ? off[y] : 0, la = al < ml - ao ? al : ml - ao;
                    memcpy(k, kp, 16), memcpy(n, np, 16), memcpy(m, mp, ml);
                    memcpy(ad, c + ao, la);         /* the ciphertext body does not depend on the associated data */
                    ENC(out, &len, m, ml, ad, la, n, k);
                    memset(m, 0, ml);
                    r = DEC(m, &len, out, ml + 16, out + ao, la, np, kp);
                    if (r != 0 || memcmp(m, mp, ml)) fail("adlen=%d mlen=%d ret=%d: associated data inside the ciphertext changes decryption", la, ml, r);
                }
            }
            for (i = 4; i < 6; i++) cur[i] = 0;
        }
        if (HAS_HASH) {
            u8 d0[32], *in = arenas[0] + 1024, *out = arenas[0] + 4096;
            what = "crypto_hash";
            for (i = 0; i < 40; i++) {
                memcpy(m = (free(m), xalloc(ml + 64)), M0, ml);
                HASH(d0, m, ml);
                break;
            }
            for (a = 0; a < 16; a++)
                for (b = 0; b < 16; b++) {
                    cur[1] = 70, cur[2] = a, cur[3] = b;
                    stat_cases++;
                    memcpy(in + a, M0, ml);
                    int r = HASH(out + b, in + a, ml);
                    if (r != 0 || memcmp(out + b, d0, 32)) fail("inlen=%d: the digest depends on alignment", ml);
                }
            for (ar = 1; ar < na; ar++)
                for (a = 0; a <= ml; a++) {
                    cur[1] = 71, cur[2] = ar, cur[3] = a;
                    in = arenas[ar] + 8192 - a, memcpy(in, M0, ml);
                    out = arenas[ar] + 8192 - (a % 33) + 1024 * (a > 32 ? 1 : 2);
                    HASH(out, in, ml);
                    if (memcmp(out, d0, 32)) fail("inlen=%d: the digest depends on the address", ml);
                }
        }
        free(k), free(n), free(ad), free(m), free(c);
    }
    /* long buffers: every pair of buffers, one at every offset and the other at three; all alike; the same memory for both inputs */
    {
        static const int LONG[2][2] = { { 530, 1100 }, { 1111, 260 } };
        for (s = 0; s < 2; s++) {
            int al = LONG[s][0], ml = LONG[s][1];
            u8 *slot[5], *c = xalloc(ml + 16);
            cur[0] = 100 + s;
            for (i = 0; i < 5; i++) slot[i] = arenas[0] + 2048 * (i + 1);
            ENC(C0, &len, M0, ml, A0, al, N0, K0);
            for (i = 0; i < 5; i++)
                for (j = 0; j < 5; j++)
                    for (a = 0; a < width; a++)
                        for (b = 0; b < 3; b++) {
                            u8 *p[5];
                            int q;
                            static const int few[3] = { 0, 1, 8 };
                            if (i == j || (level == 0 && (b != 1 || a > 4))) continue;
                            for (q = 0; q < 5; q++) p[q] = slot[q];
                            p[i] += a, p[j] += few[b];
                            cur[1] = 0, cur[2] = i * 10 + j, cur[3] = a * 100 + b;
                            place_check(p[0], p[1], p[2], al, p[3], ml, p[4], K0, N0, A0, M0, C0, 1);
                        }
            for (a = 0; a < 16; a++) {
                cur[2] = 99, cur[3] = a;
                place_check(slot[0] + a, slot[1] + a, slot[2] + a, al, slot[3] + a, ml, slot[4] + a, K0, N0, A0, M0, C0, 1);
            }
            for (a = 0; a < 16; a++)
                for (b = 0; b < 16; b += 1 + 6 * (level == 0)) {    /* key, nonce, data and message in one piece of memory */
                    int r;
                    u8 *o = slot[0], *k = xalloc(16), *n = xalloc(16), *ad = xalloc(al), *m = xalloc(ml);
                    memcpy(o, M0, 1200);
                    memcpy(k, o + 3, 16), memcpy(n, o + 3 + b, 16), memcpy(ad, o + b, al), memcpy(m, o + a, ml);
                    cur[1] = 60, cur[2] = a, cur[3] = b;
                    what = "encrypt with overlapping inputs";
                    stat_cases++;
                    ENC(c, &len, m, ml, ad, al, n, k);
                    r = ENC(slot[3], &len, o + a, ml, o + b, al, o + 3 + b, o + 3);
                    if (r != 0 || memcmp(slot[3], c, ml + 16)) fail("adlen=%d mlen=%d ret=%d: overlapping input buffers change the result", al, ml, r);
                    r = DEC(m, &len, slot[3], ml + 16, o + b, al, o + 3 + b, o + 3);
                    if (r != 0 || memcmp(m, o + a, ml)) fail("adlen=%d mlen=%d ret=%d: overlapping input buffers change decryption", al, ml, r);
                    free(k), free(n), free(ad), free(m);
                }
            free(c);
        }
    }
    return 0;
}

/* ------------------------------------------------------------------ seq: C08 */

typedef struct { int kind; u8 k[16], n[16], ad[1200], m[1200], c[1220]; int al, ml; const char *name; } op_t;   /* kind 0 enc 1 dec 2 hash */
#define MAXOPS 64
static op_t *ops;
static int nops;
typedef struct { int ret; ull len; u8 out[1240]; } res_t;
static res_t *want_res;

static op_t *addop(int kind, const op_t *from, const char *name)
{
    op_t *o = &ops[nops++];
    if (from) *o = *from;
    o->kind = kind, o->name = name;
    return o;
}

static u8 sbuf[8][1280] __attribute__((aligned(64)));

static void dirty_stack(u8 v)
{
    volatile u8 pad[24576];
    size_t i;
    for (i = 0; i < sizeof pad; i++) pad[i] = v;
    __asm__ volatile("" ::"r"(pad) : "memory");
}

static void run_op(const op_t *o, res_t *r, int place, u8 junk)
{
    u8 *k, *n, *ad, *m, *out;
    ull len = (ull)junk * 0x0101010101010101ULL;
    /* place 0: always the same buffers; otherwise the buffers move with the position in the history */
    k = sbuf[(0 + place) & 7], n = sbuf[(1 + place) & 7], ad = sbuf[(2 + place) & 7], m = sbuf[(3 + place) & 7], out = sbuf[(4 + place) & 7];
    memcpy(k, o->k, 16), memcpy(n, o->n, 16), memcpy(ad, o->ad, o->al);
    memset(out, junk, 1260);
    memset(r->out, 0, sizeof r->out);
    dirty_stack(junk);
    if (o->kind == 0) {
        memcpy(m, o->m, o->ml);
        r->ret = ENC(out, &len, m, o->ml, ad, o->al, n, k);
        r->len = len;
        memcpy(r->out, out, o->ml + 16);
    } else if (o->kind == 1) {
        memcpy(m, o->c, o->ml);
        r->ret = DEC(out, &len, m, o->ml, ad, o->al, n, k);
        r->len = r->ret == 0 ? len : 0;
        if (r->ret == 0 && len <= 1200) memcpy(r->out, out, len);
    } else {
        memcpy(m, o->m, o->ml);
        r->ret = HASH(out, m, o->ml);
        r->len = 0;
        memcpy(r->out, out, 32);
    }
}

static ull nwin;
static int hist[6];
static ull histn;
static void step_op(int i, ull t)
{
    static const u8 junk[5] = { 0x00, 0xff, 0xa5, 0x80, 0x01 };
    res_t r;
    int q;
    for (q = 5; q > 0; q--) hist[q] = hist[q - 1];
    hist[0] = i;
    histn++;
    cur[0] = i, cur[1] = (long)t;
    for (q = 1; q < 6; q++) cur[1 + q] = histn > (ull)q ? hist[q] : -1;
    what = ops[i].name;
    run_op(&ops[i], &r, (t / 3) % 2 ? (int)(t % 8) : 0, junk[t % 5]);
    stat_cases++;
    if (r.ret != want_res[i].ret || r.len != want_res[i].len || memcmp(r.out, want_res[i].out, sizeof r.out)) {
        fail("after the history (latest first) %s, %s, %s the call gives ret=%d len=%llu, alone ret=%d len=%llu, outputs %s",
             histn > 1 ? ops[hist[1]].name : "-", histn > 2 ? ops[hist[2]].name : "-", histn > 3 ? ops[hist[3]].name : "-", r.ret, r.len,
             want_res[i].ret, want_res[i].len, memcmp(r.out, want_res[i].out, sizeof r.out) ? "differ" : "agree");
    }
}

/* de Bruijn sequence: every window of d consecutive calls over the alphabet occurs exactly once */
static int db_a[MAXOPS * 8], db_n, db_k;
static ull db_t;
static void (*db_emit)(int, ull);
static void db(int t, int p)
{
    int j;
    if (t > db_n) {
        if (db_n % p == 0)
            for (j = 1; j <= p; j++) db_emit(db_a[j], db_t++), nwin++;
        return;
    }
    db_a[t] = db_a[t - p];
    db(t + 1, p);
    for (j = db_a[t - p] + 1; j < db_k; j++) {
        db_a[t] = j;
        db(t + 1, t);
    }
}

/* seq DEPTH FORKED REPEAT NOPS */
static int mode_seq(int argc, char **argv)
{
    int depth = atoi(argv[2]), forked = atoi(argv[3]), repeat = atoi(argv[4]), lim = atoi(argv[5]), i, nb, ntr = 0;
    static const char *en[16], *dn[16], *fn[16];
    static char names[48][32];
    (void)argc;
    ops = xalloc(sizeof(op_t) * MAXOPS), want_res = mmap(NULL, sizeof(res_t) * MAXOPS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    op_t b;
    memset(&b, 0, sizeof b);
    rfill(b.k, 16), rfill(b.n, 16), rfill(b.ad, 1200), rfill(b.m, 1200);
    b.al = 13, b.ml = 21;
    op_t v[16];
    static const char *vn[16] = { "base", "key last byte", "key first byte", "nonce last byte", "nonce first byte", "ad byte", "message byte",
        "empty", "long", "shorter message", "no ad", "key upper half", "longer ad", "nonce middle", "zero key and nonce" };
    for (i = 0; i < 15; i++) v[i] = b;
    v[1].k[15] ^= 1, v[2].k[0] ^= 0x80, v[3].n[15] ^= 1, v[4].n[0] ^= 0x80, v[5].ad[12] ^= 1, v[6].m[20] ^= 1;
    v[7].al = v[7].ml = 0, v[8].al = 41, v[8].ml = 1100, v[9].ml = 8, v[10].al = 0;
    for (i = 8; i < 16; i++) v[11].k[i] ^= 0x55;
    v[12].al = lim < 15 ? 14 : 1100, v[13].n[8] ^= 0x10;
    memset(v[14].k, 0, 16), memset(v[14].n, 0, 16);
    nb = lim < 15 ? lim : 15;
    for (i = 0; i < nb; i++) {
        snprintf(names[3 * i], 32, "encrypt(%s)", vn[i]), snprintf(names[3 * i + 1], 32, "decrypt(%s)", vn[i]), snprintf(names[3 * i + 2], 32, "refuse(%s)", vn[i]);
        en[i] = names[3 * i], dn[i] = names[3 * i + 1], fn[i] = names[3 * i + 2];
        addop(0, &v[i], en[i]);
    }
    /* ciphertexts come from a separate process, so that this one starts with no history */
    u8 *shared = mmap(NULL, 16 * 1280, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (i = 0; i < nb; i++) {
        int st = 0;
        pid_t pid = fork();
        if (pid == 0) {
            ull l = 0;
            ENC(shared + 1280 * i, &l, v[i].m, v[i].ml, v[i].ad, v[i].al, v[i].n, v[i].k);
            _exit(0);
        }
        if (pid < 0 || waitpid(pid, &st, 0) < 0 || st) { printf("ERROR child\n"); return 2; }
        memcpy(v[i].c, shared + 1280 * i, v[i].ml + 16);
    }
    for (i = 0; i < nb; i++) {
        op_t *o = addop(1, &v[i], dn[i]);
        o->ml = v[i].ml + 16;
        if (i < 4 || i == 7 || i == 8) {
            o = addop(1, &v[i], fn[i]);
            o->ml = v[i].ml + 16;
            o->c[v[i].ml + 15] ^= 1;
        }
    }
    if (nb > 2) {   /* ciphertext of one key or nonce under another, and a short input */
        op_t *o = addop(1, &v[0], "refuse(base under other key)");
        o->ml = v[0].ml + 16, o->k[15] ^= 1;
        o = addop(1, &v[0], "refuse(base under other nonce)");
        o->ml = v[0].ml + 16, o->n[15] ^= 1;
        o = addop(1, &v[0], "refuse(short)");
        o->ml = 9;
    }
    if (HAS_HASH)
        for (i = 0; i < 4 && i < nb; i++) {
            static const int hl[4] = { 21, 0, 8, 300 };
            static const char *hn[4] = { "hash(21)", "hash(0)", "hash(8)", "hash(300)" };
            op_t *o = addop(2, &b, hn[i]);
            o->ml = hl[i];
            ntr++;
        }
    /* what each operation gives when it is the first call of a process */
    for (i = 0; i < nops; i++) {
        int st = 0;
        pid_t pid = fork();
        if (pid == 0) {
            res_t r;
            memset(&r, 0, sizeof r);
            cur[0] = i, what = ops[i].name;
            run_op(&ops[i], &r, 0, 0);
            want_res[i] = r;
            _exit(0);
        }
        if (pid < 0 || waitpid(pid, &st, 0) < 0 || st) { printf("ERROR child\n"); return 2; }
        if (ops[i].kind == 1 ? want_res[i].ret == 0 : 0) stat_accept++;
    }
    printf("STAT operations %d\n", nops);
    /* histories that start in a fresh process: every operation first, then every sequence of two */
    db_emit = step_op;
    if (forked)
        for (i = 0; i < nops; i++) {
            int st = 0;
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                int j;
                if (forked == 1) {
                    /* first op i, then each op once in ascending and descending order */
                    step_op(i, 0);
                    for (j = 0; j < nops; j++) step_op(j, 1 + j);
                    for (j = nops - 1; j >= 0; j--) step_op(j, 100 + j);
                } else {
                    step_op(i, 1);
                    db_n = 2, db_k = nops, db_t = 2;
                    memset(db_a, 0, sizeof db_a);
                    db(1, 1);
                }
                fflush(stdout);
                _exit(nfail ? 1 : 0);
            }
            if (pid < 0 || waitpid(pid, &st, 0) < 0) { printf("ERROR child\n"); return 2; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { nfail++; return 0; }
            if (st) { printf("FAIL seq.%d history: a child process died with status %d\n", i, st); nfail++; return 0; }
            ull extra = forked == 1 ? 1 + 2 * (ull)nops : 1 + (ull)nops * nops;
            stat_cases += extra, stat_calls += extra;
            progress++;
        }
    db_n = depth, db_k = nops, db_t = 0;
    memset(db_a, 0, sizeof db_a);
    db(1, 1);
    printf("STAT windows %llu\n", nwin);
    /* long histories of one operation, then every operation */
    if (repeat) {
        int which[4] = { 0, nb, nb + 1, nops - 1 }, w, j;
        for (w = 0; w < 4; w++) {
            for (j = 0; j < repeat; j++) step_op(which[w], j);
            for (j = 0; j < nops; j++) step_op(j, j);
        }
        printf("STAT repeats %d\n", repeat);
    }
    return 0;
}

/* ------------------------------------------------------------------ empty: C15 */

static int mode_empty(int argc, char **argv)
{
    tfile_t t;
    uint32_t i;
    (void)argc;
    topen(argv[2], &t);
    u8 *none = mmap(NULL, 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    u8 valid[64];
    u8 *cand[3] = { NULL, none + 4096, valid };
    memset(valid, 0x77, sizeof valid);
    for (i = 0; i < t.h->count; i++) {
        trec_t *r = &t.r[i];
        int a, m, s, ret;
        ull len;
        if (r->kind == 1) {
            if (!HAS_HASH || r->mlen) continue;
            for (m = 0; m < 3; m++) {
                u8 o[32];
                cur[0] = i, cur[2] = m;
                what = "crypto_hash of nothing";
                stat_cases++;
                memset(o, 0x11, 32);
                ret = HASH(o, cand[m], 0);
                if (ret != 0 || memcmp(o, t.blob + r->ct, 32)) fail("ret=%d or wrong digest with the input pointer %p", ret, (void *)cand[m]);
            }
            continue;
        }
        if ((r->adlen && r->mlen) || r->tier) continue;
        u8 *ad = xalloc(r->adlen + 1), *mm = xalloc(r->mlen + 16), *c = xalloc(r->mlen + 16), *mo = xalloc(r->mlen + 16);
        u8 k[16], n[16];
        memcpy(k, t.blob + r->k, 16), memcpy(n, t.blob + r->n, 16);
        memcpy(ad, t.blob + r->ad, r->adlen), memcpy(mm, t.blob + r->m, r->mlen);
        for (a = 0; a < (r->adlen ? 1 : 3); a++)
            for (m = 0; m < (r->mlen ? 1 : 3); m++)
                for (s = 0; s < 3; s++) {
                    const u8 *ap = r->adlen ? ad : cand[a], *mp = r->mlen ? mm : cand[m];
                    u8 *op = r->mlen ? mo : cand[m];
                    cur[0] = i, cur[1] = a, cur[2] = m, cur[3] = s;
                    what = "encrypt";
                    stat_cases++;
                    memset(c, 0x5a, r->mlen + 16), len = 12345;
                    progress++, stat_calls++;
                    ret = crypto_aead_encrypt(c, &len, mp, r->mlen, ap, r->adlen, cand[s], n, k);
                    if (ret != 0 || len != r->mlen + 16 || memcmp(c, t.blob + r->ct, r->mlen) || memcmp(c + r->mlen, r->tag, 16))
                        fail("adlen=%u mlen=%u ret=%d: wrong result with ad=%p m=%p nsec=%p", r->adlen, r->mlen, ret, (void *)ap, (void *)mp, (void *)cand[s]);
                    memcpy(c, t.blob + r->ct, r->mlen), memcpy(c + r->mlen, r->tag, 16);
                    what = "decrypt";
                    memset(mo, 0x5a, r->mlen + 1), len = 12345;
                    memset(valid, 0x77, sizeof valid);
                    progress++, stat_calls++;
                    ret = crypto_aead_decrypt(op, &len, cand[s], c, r->mlen + 16, ap, r->adlen, n, k);
                    if (ret != 0 || len != r->mlen || memcmp(mo, t.blob + r->m, r->mlen))
                        fail("adlen=%u mlen=%u ret=%d mlen=%llu: wrong result with ad=%p m=%p nsec=%p", r->adlen, r->mlen, ret, len, (void *)ap, (void *)op, (void *)cand[s]);
                    int j;
                    for (j = 0; j < 64; j++) if (valid[j] != 0x77) { fail("a zero-length or unused buffer was written"); memset(valid, 0x77, 64); }
                    what = "decrypt a forgery";
                    c[r->mlen + (i + a + m) % 16] ^= 0x40;
                    progress++, stat_calls++;
                    ret = crypto_aead_decrypt(op, &len, cand[s], c, r->mlen + 16, ap, r->adlen, n, k);
                    if (ret == 0) fail("adlen=%u mlen=%u: a forgery is accepted", r->adlen, r->mlen);
                }
        free(ad), free(mm), free(c), free(mo);
    }
    return 0;
}

/* ------------------------------------------------------------------ probe: C12
   A declared length of which only the first pages exist: an implementation that uses the whole length must run into
   the end of what exists.  Returning means that it did not use the length. */

static int probe_case(int which, ull L, u8 *win, size_t W, const u8 *k, const u8 *n, u8 *out)
{
    ull len = 0;
    static u8 small[64], tmp[128];
    int sig;
    stat_cases++;
    progress++, stat_calls++;
    sig = sigsetjmp(faultjmp, 1);
    if (sig) {
        /* the message exists up to win + W, the ciphertext buffer beyond: whoever gets to its end has left the message early */
        if (which == 2 && fault_addr >= out + 2 * W && fault_addr < out + 4 * W + (16 << 12)) return 2;
        return 1;
    }
    fault_armed = 1;
    switch (which) {
    case 0: crypto_aead_encrypt(tmp, &len, small, 3, win, L, NULL, n, k); break;                /* associated data, encryption */
    case 1: crypto_aead_decrypt(tmp, &len, NULL, small, 20, win, L, n, k); break;                /* associated data, decryption */
    case 2: crypto_aead_encrypt(out, &len, win, L, small, 3, NULL, n, k); break;                 /* message */
    case 3: crypto_aead_decrypt(out, &len, NULL, win, L, small, 3, n, k); break;                 /* ciphertext */
    case 4: crypto_hash(tmp, win, L); break;
    }
    fault_armed = 0;
    return 0;
}

static int mode_probe(int argc, char **argv)
{
    static const char *nm[5] = { "associated data length (encryption)", "associated data length (decryption)", "message length", "ciphertext length", "hash input length" };
    size_t W = 4096;
    u8 k[16], n[16];
    int w, e, d, s, step = argc > 2 ? atoi(argv[2]) : 1;
    rfill(k, 16), rfill(n, 16);
    u8 *win = mmap(NULL, W + (16 << 12), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(win, W, PROT_READ | PROT_WRITE);
    rfill(win, W);
    u8 *out = mmap(NULL, 4 * W + (16 << 12), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(out, 4 * W, PROT_READ | PROT_WRITE);
    int emax = sizeof(void *) == 8 ? 46 : 31;
    for (w = 0; w < 4 + HAS_HASH; w++)
        for (e = 13; e <= emax; e++)
            for (s = 0; s < 2; s++)
                for (d = s ? -24 : 0; d <= 40; d++) {
                    if (step > 1 && (d * 5 + e) % step && d != 0) continue;
                    /* 2^e + d, and (multiples of) 2^e + 2^k + d for small parts */
                    ull L = (1ULL << e) + (ull)(long long)d;
                    if (s == 0) L = (1ULL << e) + (1ULL << (d % 13)) * (d % 3) + d * 16;
                    if (L < W + 64) continue;
                    if (emax == 31 && L > 0xfffff000ULL) continue;
                    cur[0] = w, cur[1] = e, cur[2] = s, cur[3] = d;
                    what = nm[w];
                    int pr = probe_case(w, L, win, W, k, n, out);
                    if (pr == 2) fail("length %llu (0x%llx): the call went on without having read the declared message", L, L);
                    if (!pr)
                        fail("length %llu (0x%llx): the call returned without having read the declared bytes", L, L);
                }
    return 0;
}

/* ------------------------------------------------------------------ huge: C12
   huge KIND LEN: prints the tag (or digest) for an input of LEN bytes that repeats one MiB */

static u8 *alias_map(ull len, const u8 *pat, size_t P)
{
    int fd = memfd_create("alias", 0);
    ull o;
    if (fd < 0 || ftruncate(fd, P)) return NULL;
    u8 *w = mmap(NULL, P, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (w == MAP_FAILED) return NULL;
    if (pat) memcpy(w, pat, P);
    munmap(w, P);
    ull tot = (len + P - 1) / P * P + P;
    u8 *b = mmap(NULL, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) return NULL;
    for (o = 0; o < tot; o += P)
        if (mmap(b + o, P, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return NULL;
    close(fd);
    return b;
}

static int mode_huge(int argc, char **argv)
{
    int kind = atoi(argv[2]), i, ret;
    ull L = strtoull(argv[3], 0, 0), len = 0, o;
    size_t P = 1 << 20;
    u8 k[16], n[16], *pat = xalloc(P), tag[32], c[64];
    signal(SIGPROF, SIG_IGN);
    for (i = 0; i < 16; i++) k[i] = (u8)(7 * i + 1), n[i] = (u8)(13 * i + 5);
    for (o = 0; o < P; o++) pat[o] = (u8)((o * 2654435761u) >> 13);
    u8 *in = alias_map(L + 16, pat, P);
    (void)argc;
    if (!in) { printf("ERROR map\n"); return 2; }
    cur[0] = kind, what = "huge input";
    stat_cases++;
    if (kind == 0) {
        ret = ENC(c, &len, pat, 5, in, L, n, k);
        printf("RESULT %d %llu ", ret, len);
        for (i = 0; i < 21; i++) printf("%02x", c[i]);
        printf("\n");
    } else if (kind == 1) {             /* decrypt: the tag overwrites 16 bytes of every copy of the last window, so give it its own page */
        ull last = L / P * P;
        u8 *own = mmap(in + last, P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
        u8 *own2 = mmap(in + last + P, P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
        memcpy(own, pat, P), memcpy(own2, pat, P);
        for (i = 0; i < 16; i++) {
            unsigned v;
            sscanf(argv[4] + 2 * i, "%2x", &v);
            in[L + i] = (u8)v;
        }
        u8 *out = alias_map(L, NULL, P);
        if (!out) { printf("ERROR map\n"); return 2; }
        ret = DEC(out, &len, in, L + 16, pat, 5, n, k);
        printf("RESULT %d %llu ", ret, len);
        for (i = 32; i > 0; i--) printf("%02x", out[L - i]);
        printf("\n");
    } else {
        ret = HASH(tag, in, L);
        printf("RESULT %d 0 ", ret);
        for (i = 0; i < 32; i++) printf("%02x", tag[i]);
        printf("\n");
    }
    return 0;
}

/* ------------------------------------------------------------------ stack: C16 */

#ifdef WRAP_MALLOC
static volatile int in_call;
static volatile ull heap_calls;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { if (in_call) heap_calls++; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (in_call) heap_calls++; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (in_call) heap_calls++; return __real_realloc(p, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (in_call) heap_calls++; return __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (in_call) heap_calls++; return __real_posix_memalign(p, a, n); }
void __wrap_free(void *p) { if (in_call && p) heap_calls++; __real_free(p); }
#else
static volatile int in_call;
static volatile ull heap_calls;
#endif

typedef struct { int kind; const u8 *ad, *m; ull al, ml; u8 *k, *n, *c, *p; int ret; } scall_t;

static void do_scall(scall_t *s)
{
    ull len = 0;
    in_call = 1;
    if (s->kind == 0) s->ret = crypto_aead_encrypt(s->c, &len, s->m, s->ml, s->ad, s->al, NULL, s->n, s->k);
    else if (s->kind == 1) s->ret = crypto_aead_decrypt(s->p, &len, NULL, s->c, s->ml + 16, s->ad, s->al, s->n, s->k);
    else s->ret = crypto_hash(s->p, s->m, s->ml);
    in_call = 0;
}
#include <ucontext.h>
static ucontext_t uc_main, uc_call;
static scall_t *the_scall;
static void tramp(void) { do_scall(the_scall); }

/* painted stack; returns the number of bytes used */
static long stack_of(scall_t *s, u8 *stk, size_t size)
{
    size_t i;
    static size_t dirty_from;       /* only repaint what the last call used */
    if (!dirty_from) memset(stk, 0xc3, size), dirty_from = size;
    memset(stk + (dirty_from > 4096 ? dirty_from - 4096 : 0), 0xc3, size - (dirty_from > 4096 ? dirty_from - 4096 : 0));
    getcontext(&uc_call);
    uc_call.uc_stack.ss_sp = stk, uc_call.uc_stack.ss_size = size, uc_call.uc_link = &uc_main;
    the_scall = s;
    makecontext(&uc_call, tramp, 0);
    progress++, stat_calls++, stat_cases++;
    swapcontext(&uc_main, &uc_call);
    for (i = 0; i + 8 <= size; i += 8) {
        size_t q;
        for (q = 0; q < 8; q++) if (stk[i + q] != 0xc3) break;
        if (q < 8) break;
    }
    dirty_from = i;
    return (long)(size - i);
}

static int mode_stack(int argc, char **argv)
{
    ull maxlen = strtoull(argv[2], 0, 0), L;
    int dense = atoi(argv[3]);
    const long LIMIT = 65536;
    size_t size = 1 << 18;
    u8 *stk = mmap(NULL, size + (1 << 22), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    long peak[3] = { 0, 0, 0 }, small[3] = { 0, 0, 0 };
    (void)argc;
    stk += 1 << 22;
    mprotect(stk, size, PROT_READ | PROT_WRITE);
    ranges[nranges].name = "stack", ranges[nranges].base = stk, ranges[nranges++].size = size;
    u8 *big = xalloc(maxlen + 64), *c = xalloc(maxlen + 64), *p = xalloc(maxlen + 64), k[16], n[16];
    rfill(k, 16), rfill(n, 16), rfill(big, maxlen);
    for (L = 0; L <= maxlen; L = L < (ull)dense ? L + 1 : L * 2 + (L % 3) + 1) {
        int v, kind;
        for (v = 0; v < 3; v++)
            for (kind = 0; kind < 4; kind++) {
                if (kind == 3 && (!HAS_HASH || v)) continue;
                scall_t s = { kind == 2 ? 1 : kind == 3 ? 2 : kind, big, big, v == 1 ? L : v == 2 ? L : 3, v == 0 ? L : v == 2 ? L : 5, k, n, c, p, 0 };
                ull h0 = heap_calls;
                if (kind == 3) s.ml = L;
                if (kind == 2) c[s.ml + 3] ^= 1;
                cur[0] = kind, cur[1] = v, cur[2] = (long)L;
                what = kind == 0 ? "encrypt" : kind == 1 ? "decrypt" : kind == 2 ? "decrypt a forgery" : "crypto_hash";
                long used = stack_of(&s, stk, size);
                int q = kind == 3 ? 2 : kind ? 1 : 0;
                if (used > peak[q]) peak[q] = used;
                if (L <= 8192 && used > small[q]) small[q] = used;
                if (used > LIMIT) fail("uses %ld bytes of stack for adlen=%llu mlen=%llu", used, s.al, s.ml);
                if (L > 8192 && used > small[q] + 512) fail("stack use grows with the input: %ld bytes for adlen=%llu mlen=%llu, at most %ld up to 8192 bytes", used, s.al, s.ml, small[q]);
                if (heap_calls != h0) fail("%llu heap operations for adlen=%llu mlen=%llu", heap_calls - h0, s.al, s.ml);
                if (kind == 1 && s.ret == 0) stat_accept++;
                if (kind == 2 && s.ret != 0) stat_reject++;
            }
    }
    printf("STAT stack_encrypt %ld\nSTAT stack_decrypt %ld\nSTAT stack_hash %ld\n", peak[0], peak[1], peak[2]);
    return 0;
}

/* syscalls MAXLEN: runs calls of many lengths in a process in which any system call but exit_group is fatal (x86),
   or between two getppid() markers (elsewhere; the driver reads qemu's trace) */
static int mode_syscalls(int argc, char **argv)
{
    ull maxlen = strtoull(argv[2], 0, 0), L;
    u8 *big = xalloc(maxlen + 64), *c = xalloc(maxlen + 64), *p = xalloc(maxlen + 64), k[16], n[16];
    volatile ull *sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    (void)argc;
    rfill(k, 16), rfill(n, 16), rfill(big, maxlen);
    signal(SIGPROF, SIG_IGN);
    struct itimerval it0 = { { 0, 0 }, { 0, 0 } };
    setitimer(ITIMER_PROF, &it0, NULL);
#if defined(__x86_64__)
    fflush(stdout);
    int st = 0;
    pid_t pid = fork();
    if (pid == 0) {
        struct sock_filter f[] = {
            BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
            BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 1),
            BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
            BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
        };
        struct sock_fprog fp = { sizeof f / sizeof *f, f };
        signal(SIGSYS, SIG_DFL);
        if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp)) _exit(77);
#else
    (void)getppid();
    {
#endif
        for (L = 0; L <= maxlen; L = L < 70 ? L + 1 : L * 2 + 1) {
            int v;
            for (v = 0; v < 2; v++) {
                ull len = 0;
                sh[1] = L, sh[2] = v;
                sh[3] = 0, crypto_aead_encrypt(c, &len, big, v ? 3 : L, big, v ? L : 5, NULL, n, k), sh[0]++;
                sh[3] = 1, crypto_aead_decrypt(p, &len, NULL, c, (v ? 3 : L) + 16, big, v ? L : 5, n, k), sh[0]++;
                c[(v ? 3 : L) + 5] ^= 1;
                sh[3] = 2, crypto_aead_decrypt(p, &len, NULL, c, (v ? 3 : L) + 16, big, v ? L : 5, n, k), sh[0]++;
                sh[3] = 3, crypto_aead_decrypt(p, &len, NULL, c, L % 16, big, v ? L : 5, n, k), sh[0]++;
                if (HAS_HASH) sh[3] = 4, crypto_hash(p + (maxlen > 64 ? 0 : 0), big, L), sh[0]++;
            }
        }
#if defined(__x86_64__)
        syscall(SYS_exit_group, 0);
    }
    if (pid < 0 || waitpid(pid, &st, 0) < 0) { printf("ERROR child\n"); return 2; }
    stat_calls += sh[0], stat_cases += sh[0];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { printf("STAT seccomp_unavailable 1\n"); return 0; }
    cur[0] = (long)sh[3], cur[1] = (long)sh[2], cur[2] = (long)sh[1];
    what = "call without system calls";
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGSYS) fail("a system call was made (operation %ld, length %ld)", cur[0], cur[2]);
    else if (st) fail("the process ended with status 0x%x", st);
#else
    }
    (void)getppid();
    stat_calls += sh[0], stat_cases += sh[0];
#endif
    return 0;
}

/* ------------------------------------------------------------------ dump: C13
   dump FILE level OUT: writes return codes, lengths and outputs of honest and forged calls, for comparison between programs */

static FILE *df;
static void dput(int ret, ull len, const u8 *p, ull n)
{
    int32_t r = ret == 0 ? 0 : -1;
    uint64_t l = len;
    if (fwrite(&r, 4, 1, df) != 1 || fwrite(&l, 8, 1, df) != 1 || (n && fwrite(p, n, 1, df) != 1)) { printf("ERROR write\n"); exit(2); }
}
static uint64_t fnv(const u8 *p, ull n)
{
    uint64_t h = 1469598103934665603ULL;
    while (n--) h = (h ^ *p++) * 1099511628211ULL;
    return h;
}

/* one 32-byte entry per call: return code, length, digest of the output */
static void dent(uint32_t idx, uint32_t kind, int ret, ull len, const u8 *p, ull n)
{
    uint64_t e[4] = { (uint64_t)kind << 32 | idx, (uint64_t)(uint32_t)ret, len, n ? fnv(p, n) : 0 };
    if (fwrite(e, sizeof e, 1, df) != 1) { printf("ERROR write\n"); exit(2); }
    stat_cases++;
}

static int mode_dump(int argc, char **argv)
{
    tfile_t t;
    uint32_t i;
    int tier = atoi(argv[3]);
    (void)argc, (void)dput;
    topen(argv[2], &t);
    df = fopen(argv[4], "wb");
    if (!df) return 2;
    for (i = 0; i < t.h->count; i++) {
        trec_t *r = &t.r[i];
        ull al = r->adlen, ml = r->mlen, len;
        int ret, j;
        if (r->kind || (int)r->tier > tier) continue;
        u8 k[16], n[16], *ad = xalloc(al + 32), *m = xalloc(ml + 32), *c = xalloc(ml + 64), *p = xalloc(ml + 64);
        memcpy(k, t.blob + r->k, 16), memcpy(n, t.blob + r->n, 16), memcpy(ad, t.blob + r->ad, al), memcpy(m, t.blob + r->m, ml);
        cur[0] = i;
        what = "encrypt";
        len = 0;
        ret = ENC(c, &len, m, ml, ad, al, n, k);
        dent(i, 0, ret, len, c, ml + 16);
        /* decrypt exactly the bytes in the trace file (sealed by another party), and variations of them */
        what = "decrypt";
        memcpy(c, t.blob + r->ct, ml), memcpy(c + ml, r->tag, 16);
        for (j = 0; j < 14; j++) {
            ull cl = ml + 16, ala = al;
            u8 x[64 + 16];
            (void)x;
            memcpy(c, t.blob + r->ct, ml), memcpy(c + ml, r->tag, 16);
            if (j == 1) c[ml + i % 16] ^= (u8)(1 << (i / 16) % 8);
            else if (j == 2) { if (!ml) continue; c[(i * 7) % ml] ^= (u8)(1 << i % 8); }
            else if (j == 3) { if (!al) continue; ala = al - 1; }
            else if (j == 4) { if (!ml) continue; cl--; }
            else if (j == 5) cl = i % 16;
            else if (j == 6) { c[ml] ^= 0x81, c[ml + 8] ^= 0x81; }
            else if (j == 7) { c[ml + 3] += 1, c[ml + 12] -= 1; }
            else if (j == 8) { int q; for (q = 0; q < 16; q++) c[ml + q] ^= (u8)(0x100 >> (q % 9)); }
            else if (j == 9) { memset(c + ml + 8, 0, 8); if (!memcmp(c + ml, r->tag, 16)) c[ml + 15] = 1; }
            else if (j == 10) { memset(c + ml, 0, 16); if (!memcmp(c + ml, r->tag, 16)) c[ml + 15] = 1; }
            else if (j == 11) { n[i % 16] ^= 1; }
            else if (j == 12) { k[i % 16] ^= 0x80; }
            else if (j == 13) { if (!al) continue; ad[i % al] ^= 0x10; }
            if (j > 2 && (i & 3) != (uint32_t)(j & 3)) goto undo;
            len = 0;
            memset(p, 0, ml + 16);
            ret = DEC(p, &len, c, cl, ad, ala, n, k);
            dent(i, 1 + j, ret, ret == 0 ? len : 0, p, ret == 0 ? cl - 16 : 0);
        undo:
            if (j == 11) n[i % 16] ^= 1;
            else if (j == 12) k[i % 16] ^= 0x80;
            else if (j == 13) ad[i % al] ^= 0x10;
        }
        free(ad), free(m), free(c), free(p);
    }
    if (fclose(df)) return 2;
    return 0;
}

/* refuse FILE tier: every ciphertext in FILE (of another instance) is refused */
static int mode_refuse(int argc, char **argv)
{
    tfile_t t;
    uint32_t i;
    int tier = atoi(argv[3]);
    (void)argc;
    topen(argv[2], &t);
    for (i = 0; i < t.h->count; i++) {
        trec_t *r = &t.r[i];
        ull len = 0;
        if (r->kind || (int)r->tier > tier) continue;
        u8 *c = xalloc(r->mlen + 16), *p = xalloc(r->mlen + 16);
        memcpy(c, t.blob + r->ct, r->mlen), memcpy(c + r->mlen, r->tag, 16);
        cur[0] = i, cur[1] = r->adlen, cur[2] = r->mlen;
        what = "decrypt another instance's ciphertext";
        stat_cases++;
        int ret = DEC(p, &len, c, (ull)r->mlen + 16, t.blob + r->ad, r->adlen, t.blob + r->n, t.blob + r->k);
        if (ret == 0) fail("accepted (adlen=%u mlen=%u)", r->adlen, r->mlen);
        free(c), free(p);
    }
    return 0;
}

/* ------------------------------------------------------------------ time: for planning */

#include <time.h>
static int mode_time(int argc, char **argv)
{
    u8 k[16] = { 1 }, n[16] = { 2 }, *m = xalloc(1 << 16), *c = xalloc((1 << 16) + 64);
    ull len;
    int i;
    struct timespec a, b;
    (void)argc, (void)argv;
    clock_gettime(CLOCK_MONOTONIC, &a);
    for (i = 0; i < 200; i++) ENC(c, &len, m, 8, m, 8, n, k);
    clock_gettime(CLOCK_MONOTONIC, &b);
    double s = ((b.tv_sec - a.tv_sec) * 1e9 + (b.tv_nsec - a.tv_nsec)) / 200;
    ENC(c, &len, m, 1 << 15, m, 0, n, k);
    clock_gettime(CLOCK_MONOTONIC, &a);
    double e = (a.tv_sec - b.tv_sec) * 1e9 + (a.tv_nsec - b.tv_nsec);
    ENC(c, &len, m, 0, m, 1 << 15, n, k);
    clock_gettime(CLOCK_MONOTONIC, &b);
    double d = (b.tv_sec - a.tv_sec) * 1e9 + (b.tv_nsec - a.tv_nsec);
    printf("TIME short %.0f ns, message %.1f ns/B, ad %.1f ns/B\n", s, e / 32768, d / 32768);
    return 0;
}

int main(int argc, char **argv)
{
    int r = 2;
    if (argc < 2) return 2;
    mode = argv[1];
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    handlers();
    if (getenv("MAXFAIL")) maxfail = atoi(getenv("MAXFAIL"));
    if (!strcmp(mode, "conf")) r = mode_conf(argc, argv);
    else if (!strcmp(mode, "quietconf")) {
        /* the program prints; keep its output away from ours */
        fflush(stdout);
        int keep = dup(1), nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        quiet_fd = keep;
        r = mode_conf(argc, argv);
        fflush(stdout);
        dup2(keep, 1);
        quiet_fd = -1;
    }
    else if (!strcmp(mode, "forge")) r = mode_forge(argc, argv);
    else if (!strcmp(mode, "release")) { releasing = 1; r = mode_forge(argc, argv); }
    else if (!strcmp(mode, "rejlen")) r = mode_rejlen(argc, argv);
    else if (!strcmp(mode, "guard")) r = mode_guard(argc, argv);
    else if (!strcmp(mode, "short")) r = mode_short(argc, argv);
    else if (!strcmp(mode, "align")) r = mode_align(argc, argv);
    else if (!strcmp(mode, "seq")) r = mode_seq(argc, argv);
    else if (!strcmp(mode, "empty")) r = mode_empty(argc, argv);
    else if (!strcmp(mode, "probe")) r = mode_probe(argc, argv);
    else if (!strcmp(mode, "huge")) r = mode_huge(argc, argv);
    else if (!strcmp(mode, "stack")) r = mode_stack(argc, argv);
    else if (!strcmp(mode, "syscalls")) r = mode_syscalls(argc, argv);
    else if (!strcmp(mode, "dump")) r = mode_dump(argc, argv);
    else if (!strcmp(mode, "refuse")) r = mode_refuse(argc, argv);
    else if (!strcmp(mode, "time")) r = mode_time(argc, argv);
    if (r == 2) return 2;
    stats();
    printf("DONE\n");
    fflush(stdout);
    return nfail ? 1 : 0;
}
