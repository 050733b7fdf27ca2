/* Calls of the unmodified program, between markers that an observer of its instructions recognises (tracecmp.c).
 *
 *   ctreal run LEVEL NSHAPES STRIDE TABLE       every STRIDE-th secret of each kind
 *   ctreal one SHAPE KIND LEVEL INDEX TABLE     secret 0 and one more
 *
 * On x86 with TABLE (not -) it observes itself by single-stepping and prints the differences. */
#define _GNU_SOURCE
#pragma GCC optimize("no-defer-pop")     /* every call of the implementation at the same stack depth */
#include "secrets.h"
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#ifdef __x86_64__
#include <sys/mman.h>
#include <ucontext.h>
#endif

#define MARK __attribute__((noinline, noclone, used))
MARK void ct_group(int g) { __asm__ volatile("" ::"r"(g) : "memory"); }
MARK void ct_begin(void) { __asm__ volatile("" ::: "memory"); }
MARK void ct_stop(void) { __asm__ volatile("" ::: "memory"); }
MARK void ct_end(void) { __asm__ volatile("" ::: "memory"); }
MARK void ct_drop(void) { __asm__ volatile("" ::: "memory"); }

static in_t X;
static u8 OUT[1280] __attribute__((aligned(64)));
static ull OLEN;

/* ---- self-observation */
static int stepping;
#ifdef __x86_64__
typedef struct { uint64_t pc; int base, index, scale; } tab_t;
static tab_t *tab;
static size_t ntab;
typedef struct { uint64_t pc, addr; } st_t;
static st_t *A, *Bt;
static size_t na, nb;
#define CAP (1 << 24)
static volatile int on;

static const tab_t *find(uint64_t pc)
{
    size_t lo = 0, hi = ntab;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (tab[m].pc < pc) lo = m + 1; else hi = m; }
    return lo < ntab && tab[lo].pc == pc ? &tab[lo] : NULL;
}
static void trap(int s, siginfo_t *i, void *u)
{
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    uint64_t pc = (uint64_t)g[REG_RIP], ad = 0;
    (void)s, (void)i;
    if (!on) return;
    const tab_t *t = find(pc);
    if (t) {
        if (t->base >= 0) ad += (uint64_t)g[t->base];
        if (t->index >= 0) ad += (uint64_t)g[t->index] * (uint64_t)t->scale;
        ad += 1;
    }
    if (nb < CAP) Bt[nb].pc = pc, Bt[nb++].addr = ad;
}
static void load(const char *path)
{
    static const struct { const char *n; int r; } R[] = { { "rax", REG_RAX }, { "rbx", REG_RBX }, { "rcx", REG_RCX }, { "rdx", REG_RDX }, { "rsi", REG_RSI },
        { "rdi", REG_RDI }, { "rbp", REG_RBP }, { "rsp", REG_RSP }, { "r8", REG_R8 }, { "r9", REG_R9 }, { "r10", REG_R10 }, { "r11", REG_R11 },
        { "r12", REG_R12 }, { "r13", REG_R13 }, { "r14", REG_R14 }, { "r15", REG_R15 } };
    char b[16], x[16];
    FILE *f = fopen(path, "r");
    unsigned long long pc;
    int sc, cap = 1 << 18;
    if (!f) { printf("ERROR no table\n"); exit(2); }
    tab = malloc(cap * sizeof *tab);
    while (ntab < (size_t)cap && fscanf(f, "%llx %15s %15s %d", &pc, b, x, &sc) == 4) {
        tab_t *t = &tab[ntab++];
        unsigned k;
        t->pc = pc, t->base = t->index = -1, t->scale = sc;
        for (k = 0; k < 16; k++) {
            if (!strcmp(b, R[k].n)) t->base = R[k].r;
            if (!strcmp(x, R[k].n)) t->index = R[k].r;
        }
    }
    fclose(f);
    A = mmap(NULL, CAP * sizeof *A, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Bt = mmap(NULL, CAP * sizeof *A, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (A == MAP_FAILED || Bt == MAP_FAILED) { printf("ERROR memory\n"); exit(2); }
    stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 };
    sigaltstack(&ss, NULL);
    struct sigaction sa = { .sa_sigaction = trap, .sa_flags = SA_SIGINFO | SA_ONSTACK };
    sigaction(SIGTRAP, &sa, NULL);
    stepping = 1;
}
static inline __attribute__((always_inline)) void tf_on(void)
{
    if (stepping) {
        nb = 0, on = 1;
        __asm__ volatile("pushfq; orl $0x100,(%%rsp); popfq" ::: "memory", "cc");
    }
}
static inline __attribute__((always_inline)) void tf_off(void)
{
    if (stepping) {
        __asm__ volatile("pushfq; andl $~0x100,(%%rsp); popfq" ::: "memory", "cc");
        on = 0;
    }
}
#else
static void load(const char *p) { (void)p; }
static void tf_on(void) {}
static void tf_off(void) {}
#endif

static ull cases, steps;

static int __attribute__((noinline)) ct_call(int kind)
{
    int r;
    const u8 *volatile in = kind == K_ENC_KEY || kind == K_ENC_MSG ? X.m : X.c;
    ct_begin();
    if (kind == K_ENC_KEY || kind == K_ENC_MSG) {
        tf_on();
        r = crypto_aead_encrypt(OUT, &OLEN, in, X.ml, X.ad, X.al, NULL, X.n, X.k);
        tf_off();
    } else {
        tf_on();
        r = crypto_aead_decrypt(OUT, &OLEN, NULL, in, X.ml + 16, X.ad, X.al, X.n, X.k);
        tf_off();
    }
    ct_stop();
    return r;
}

static int ref;
static void __attribute__((noinline, noclone)) one(int shape, int kind, int i, int level, int first)
{
    int r = ct_call(kind);
    if (first) ref = r;
    if ((r == 0) != (ref == 0)) { ct_drop(); return; }          /* a wrong verdict is C03's question */
    ct_end();
    cases++;
#ifdef __x86_64__
    if (stepping) {
        size_t j;
        st_t *t;
        steps += nb;
        if (nb >= CAP) { printf("ERROR trace too long\n"); exit(2); }
        if (first) { t = A, A = Bt, Bt = t, na = nb; return; }
        for (j = 0; j < na && j < nb; j++)
            if (A[j].pc != Bt[j].pc || A[j].addr != Bt[j].addr) break;
        if (j < na || j < nb)
            printf("DIFF %d %d %d %d step %zu of %zu and %zu: pc %llx address %llx, with secret 0 pc %llx address %llx\n", shape, kind, level, i, j, nb, na,
                   j < nb ? (ull)Bt[j].pc : 0, j < nb ? (ull)Bt[j].addr : 0, j < na ? (ull)A[j].pc : 0, j < na ? (ull)A[j].addr : 0);
    }
#else
    (void)shape, (void)kind, (void)i, (void)level;
#endif
}

int main(int argc, char **argv)
{
    int shape, kind, i, g = 0;
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    if (argc < 6) return 2;
    if (strcmp(argv[argc - 1], "-")) load(argv[argc - 1]);
    if (!strcmp(argv[1], "one")) {
        int level = atoi(argv[4]), want = atoi(argv[5]);
        shape = atoi(argv[2]), kind = atoi(argv[3]);
        secret(shape, kind, 0, level, &X);
        ct_call(kind), ct_drop();
        ct_group(0);
        for (i = 0; i <= want; i += want ? want : 1) {
            if (!secret(shape, kind, i, level, &X)) return 2;
            printf("CALL 0 %d %d %d %d %d\n", i > 0, shape, kind, level, i);
            one(shape, kind, i, level, i == 0);
        }
    } else {
        int level = atoi(argv[2]), ns = atoi(argv[3]), stride = atoi(argv[4]);
        for (shape = 0; shape < ns; shape++)
            for (kind = 0; kind < NKINDS; kind++) {
                int n = 0;
                secret(shape, kind, 0, level, &X);
                ct_call(kind), ct_drop();
                ct_group(g);
                for (i = 0;; i++) {
                    /* right prefixes of the tag always, the rest in strides */
                    if (i && i % stride != 1 % stride && !(kind == K_DEC_BAD && i <= 16 && stride < 100 && (i % 3 == 1 || stride <= 4))) {
                        secret_dry = 1;
                        int more = secret(shape, kind, i, level, &X);
                        secret_dry = 0;
                        if (!more) break;
                        continue;
                    }
                    if (!secret(shape, kind, i, level, &X)) break;
                    printf("CALL %d %d %d %d %d %d\n", g, n++, shape, kind, level, i);
                    one(shape, kind, i, level, i == 0);
                }
                g++;
            }
    }
    printf("STAT cases %llu\nSTAT calls %llu\nSTAT stepped %llu\nDONE\n", cases, cases, steps);
    return 0;
}
