/* Harness for instrumented builds: every memory access and basic block of the implementation calls back.
 *
 *   trace ct LEVEL NSHAPES          C11: the trace of blocks and addresses is the same for all secrets
 *   trace conc LEVEL CAP SECONDS    C09: all interleavings of pairs of calls up to two preemptions
 */
#define _GNU_SOURCE
#include "secrets.h"
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#ifdef CRYPTO_HASH
int crypto_hash(u8 *out, const u8 *in, ull inlen);
#define HAS_HASH 1
#else
static int crypto_hash(u8 *out, const u8 *in, ull inlen) { (void)out, (void)in, (void)inlen; return -99; }
#define HAS_HASH 0
#endif

static volatile int recording;          /* 1: constant time, 2: concurrency */
static void event(uintptr_t what, uintptr_t pc, int write, size_t size);
#define RA ((uintptr_t)__builtin_return_address(0))
#define ACC(n) \
    void __asan_load##n##_noabort(uintptr_t a) { if (recording) event(a, RA, 0, n); } \
    void __asan_store##n##_noabort(uintptr_t a) { if (recording) event(a, RA, 1, n); } \
    void __asan_report_load##n##_noabort(uintptr_t a) { (void)a; } \
    void __asan_report_store##n##_noabort(uintptr_t a) { (void)a; }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { if (recording) event(a, RA, 0, n); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { if (recording) event(a, RA, 1, n); }
void __asan_handle_no_return(void) {}

/* the same from -fsanitize=thread */
#define TS(n) \
    void __tsan_read##n(uintptr_t a) { if (recording) event(a, RA, 0, n); } \
    void __tsan_write##n(uintptr_t a) { if (recording) event(a, RA, 1, n); } \
    void __tsan_unaligned_read##n(uintptr_t a) { if (recording) event(a, RA, 0, n); } \
    void __tsan_unaligned_write##n(uintptr_t a) { if (recording) event(a, RA, 1, n); } \
    void __tsan_volatile_read##n(uintptr_t a) { if (recording) event(a, RA, 0, n); } \
    void __tsan_volatile_write##n(uintptr_t a) { if (recording) event(a, RA, 1, n); } \
    void __tsan_unaligned_volatile_read##n(uintptr_t a) { if (recording) event(a, RA, 0, n); } \
    void __tsan_unaligned_volatile_write##n(uintptr_t a) { if (recording) event(a, RA, 1, n); }
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(uintptr_t a, size_t n) { if (recording && n) event(a, RA, 0, n); }
void __tsan_write_range(uintptr_t a, size_t n) { if (recording && n) event(a, RA, 1, n); }
void __tsan_vptr_update(void **a, void *b) { (void)a, (void)b; }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __sanitizer_cov_trace_pc(void) { if (recording) event(0, RA, 2, 0); }

/* library functions that move memory */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (recording && n) event((uintptr_t)s, RA, 0, n), event((uintptr_t)d, RA, 1, n);
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (recording && n) event((uintptr_t)s, RA, 0, n), event((uintptr_t)d, RA, 1, n);
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n)
{
    if (recording && n) event((uintptr_t)d, RA, 1, n);
    return __real_memset(d, v, n);
}
int __wrap_memcmp(const void *d, const void *s, size_t n)
{
    if (recording && n) event((uintptr_t)s, RA, 0, n), event((uintptr_t)d, RA, 0, n);
    return __real_memcmp(d, s, n);
}

static ull stat_calls, stat_cases, stat_events;
static void stats(void) { printf("STAT calls %llu\nSTAT cases %llu\nSTAT events %llu\n", stat_calls, stat_cases, stat_events); }

/* ------------------------------------------------------------------ ct */

typedef struct { uintptr_t what, pc; } ev_t;
static ev_t *base;
static size_t nbase, capbase, pos;
static int storing, diverged;
static ev_t div_a, div_b;
static size_t div_at;

static void ct_event(uintptr_t what, uintptr_t pc, int write, size_t size)
{
    uintptr_t w = what ^ ((uintptr_t)write << (8 * sizeof w - 2)) ^ ((uintptr_t)size << (8 * sizeof w - 9));
    stat_events++;
    if (storing) {
        if (nbase == capbase) {
            int r = recording;
            recording = 0;
            capbase = capbase * 2 + (1 << 16);
            base = realloc(base, capbase * sizeof *base);
            if (!base) { printf("ERROR memory\n"); exit(2); }
            recording = r;
        }
        base[nbase].what = w, base[nbase++].pc = pc;
        return;
    }
    if (!diverged) {
        if (pos >= nbase || base[pos].what != w || base[pos].pc != pc) {
            diverged = 1, div_at = pos;
            div_b.what = w, div_b.pc = pc;
            if (pos < nbase) div_a = base[pos]; else div_a.what = div_a.pc = 0;
        }
        pos++;
    }
}

static in_t X;
static u8 OUT[1280] __attribute__((aligned(64)));
static ull OLEN;
static int __attribute__((noinline)) ct_call(int kind)
{
    int r;
    recording = 1;
    if (kind == K_ENC_KEY || kind == K_ENC_MSG) r = crypto_aead_encrypt(OUT, &OLEN, X.m, X.ml, X.ad, X.al, NULL, X.n, X.k);
    else r = crypto_aead_decrypt(OUT, &OLEN, NULL, X.c, X.ml + 16, X.ad, X.al, X.n, X.k);
    recording = 0;
    stat_calls++;
    return r;
}

static int mode_ct(int level, int nshapes, int shape)
{
    static const char *nm[] = { "encryption, keys", "encryption, plaintexts", "accepted decryption, keys and plaintexts", "refused decryption, tags and keys" };
    int kind, i, rc = 0;
    for (; shape < nshapes; shape++)
        for (kind = 0; kind < NKINDS; kind++) {
            int refret = 0, bad = 0;
            /* one call that does not count: first-call effects are C08's question */
            secret(shape, kind, 0, level, &X);
            ct_call(kind);
            for (i = 0; secret(shape, kind, i, level, &X); i++) {
                int r;
                if (i == 0) nbase = 0, storing = 1; else storing = 0;
                pos = 0, diverged = 0;
                r = ct_call(kind);
                if (i == 0) refret = r;
                if ((r == 0) != (refret == 0)) continue;        /* a wrong verdict is C03's question */
                stat_cases++;
                if (i && pos < nbase && !diverged) diverged = 1, div_at = pos, div_a = base[pos], div_b.what = div_b.pc = 0;
                if (i && diverged) {
                    printf("CAND %d %d %d %d %s: secret %d takes another path or address than secret 0 at event %zu (pc +0x%lx address 0x%lx, was pc +0x%lx address 0x%lx)\n",
                           shape, kind, level, i, nm[kind], i, div_at, (long)(div_b.pc - (uintptr_t)crypto_aead_encrypt), (unsigned long)div_b.what,
                           (long)(div_a.pc - (uintptr_t)crypto_aead_encrypt), (unsigned long)div_a.what);
                    if (++bad >= 4) break;
                }
            }
            printf("STAT max:trace_length %zu\n", nbase);
            if (bad) rc = 0;
        }
    return rc;
}

/* ------------------------------------------------------------------ conc */

#ifndef __linux__
#error
#endif
extern char __start_impl_data[] __attribute__((weak)), __stop_impl_data[] __attribute__((weak));
extern char __start_impl_bss[] __attribute__((weak)), __stop_impl_bss[] __attribute__((weak));
static char *snap[2];
static size_t snapn[2];
static char *secp[2];

static void snapshot(void)
{
    secp[0] = __start_impl_data, snapn[0] = __start_impl_data ? __stop_impl_data - __start_impl_data : 0;
    secp[1] = __start_impl_bss, snapn[1] = __start_impl_bss ? __stop_impl_bss - __start_impl_bss : 0;
    int i;
    for (i = 0; i < 2; i++) {
        snap[i] = malloc(snapn[i] + 1);
        if (snapn[i]) __real_memcpy(snap[i], secp[i], snapn[i]);
    }
}
/* The static data of the implementation as it was when the program started.  Returns 1 if it had changed. */
static int restore(void)
{
    int i, ch = 0;
    for (i = 0; i < 2; i++)
        if (snapn[i] && __real_memcmp(snap[i], secp[i], snapn[i])) ch = 1, __real_memcpy(secp[i], snap[i], snapn[i]);
    return ch;
}

#define NT 2
typedef struct {
    int id, op;
    sem_t go;
    volatile int done;
    u8 out[1280], pad[64];
    ull len;
    int ret;
    uintptr_t slo, shi;         /* own stack */
    ull points;                 /* scheduling points passed */
    ull since;
} thr_t;
static thr_t T[NT];
static sem_t finished;
static __thread thr_t *me;
static volatile int quitting;

/* operations */
typedef struct { int kind; in_t x; const char *name; } cop_t;
static cop_t cops[16];
static int ncops;
static u8 hin[64];

static void do_op(thr_t *t)
{
    const cop_t *o = &cops[t->op];
    t->len = 0;
    if (o->kind == 0) t->ret = crypto_aead_encrypt(t->out, &t->len, o->x.m, o->x.ml, o->x.ad, o->x.al, NULL, o->x.n, o->x.k);
    else if (o->kind == 1) t->ret = crypto_aead_decrypt(t->out, &t->len, NULL, o->x.c, o->x.ml + 16, o->x.ad, o->x.al, o->x.n, o->x.k);
    else t->ret = crypto_hash(t->out, hin, o->x.ml);
}

/* addresses outside the private memory of a call that some call writes, per 8-byte granule */
#define HB (1 << 16)
static uintptr_t wset[HB];
static size_t nwset;
static int wset_full;
static int wset_has(uintptr_t g)
{
    size_t h = (g * 0x9E3779B1u) % HB;
    while (wset[h]) { if (wset[h] == g) return 1; h = (h + 1) % HB; }
    return 0;
}
static int wset_add(uintptr_t g)
{
    size_t h = (g * 0x9E3779B1u) % HB;
    if (nwset > HB / 2) { wset_full = 1; return 0; }
    while (wset[h]) { if (wset[h] == g) return 0; h = (h + 1) % HB; }
    wset[h] = g, nwset++;
    return 1;
}

/* a schedule: at point number at[0] of the first thread switch to the second; at point at[1] of the second switch back */
static ull at[2];
static int collecting;          /* 1: learn which addresses are shared and written, no switching */
static int blocks_too;          /* shared writes happen where we cannot see them: switch at every block */
static ull limit;
static int overrun;

static void switch_to(thr_t *t)
{
    sem_post(&t->go);
    while (sem_wait(&me->go)) {}
}

static void conc_event(uintptr_t a, int write, size_t size)
{
    thr_t *t = me;
    int point = 0;
    if (!t) return;
    stat_events++;
    if (write == 2) {
        if (!blocks_too) return;
        point = 1;
    } else {
        if (a >= t->slo && a < t->shi) return;
        if (a >= (uintptr_t)t && a < (uintptr_t)(t + 1)) return;
        uintptr_t g = a >> 3, e = (a + size - 1) >> 3;
        if (collecting) {
            if (write) for (; g <= e; g++) wset_add(g + 1);
            return;
        }
        for (; g <= e; g++) {
            if (write && !wset_has(g + 1)) wset_add(g + 1);
            if (nwset && wset_has(g + 1)) point = 1;
        }
    }
    if (!point || collecting) return;
    ull p = t->points++;
    thr_t *o = &T[1 - t->id];
    if (p == at[t->id] && !o->done) { switch_to(o); return; }
    if (p > limit && !o->done && p % 4096 == 0) { overrun = 1; switch_to(o); }       /* waiting for the other thread */
}

static void event(uintptr_t what, uintptr_t pc, int write, size_t size)
{
    if (recording == 1) ct_event(what, pc, write, size);
    else if (recording == 2) conc_event(what, write, size);
}

static void *worker(void *p)
{
    thr_t *t = p;
    me = t;
    for (;;) {
        while (sem_wait(&t->go)) {}
        if (quitting) return NULL;
        do_op(t);
        t->done = 1;
        thr_t *o = &T[1 - t->id];
        if (!o->done) sem_post(&o->go); else sem_post(&finished);
    }
}

/* runs op a on thread 0 and op b (or nothing) on thread 1 under the schedule */
static void run_schedule(int a, int b, int first)
{
    int i;
    restore();
    for (i = 0; i < NT; i++) {
        T[i].op = i ? b : a;
        T[i].points = 0;
        T[i].done = T[i].op < 0;
        __real_memset(T[i].out, 0x3c, sizeof T[i].out);
    }
    recording = 2;
    sem_post(&T[first].go);
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 120;
    while (sem_timedwait(&finished, &ts)) {
        if (time(NULL) > ts.tv_sec + 1) { printf("ERROR a schedule does not finish\n"); fflush(stdout); _exit(2); }
    }
    recording = 0;
    stat_calls += (a >= 0) + (b >= 0);
}

static int ret_[16];
static ull len_[16];
static u8 out_[16][1280];
static ull pts_[16];

static int agrees(const thr_t *t)
{
    int o = t->op;
    ull n = cops[o].kind == 0 ? cops[o].x.ml + 16 : cops[o].kind == 1 ? (ret_[o] == 0 ? cops[o].x.ml : 0) : 32;
    if (t->ret != ret_[o] || (t->ret == 0 && cops[o].kind < 2 && t->len != len_[o])) return 0;
    return !__real_memcmp(t->out, out_[o], n);
}

static int check_pair(int a, int b, const char *how)
{
    int i;
    stat_cases++;
    for (i = 0; i < NT; i++)
        if (T[i].op >= 0 && !agrees(&T[i])) {
            printf("FAIL conc.%d.%d.%llu.%llu %s with %s: %s: the result of %s (ret=%d) differs from that of the call alone (ret=%d); switched at shared access %lld of the first and %lld of the second call\n",
                   a, b, at[0], at[1], cops[a].name, cops[b].name, how, cops[T[i].op].name, T[i].ret, ret_[T[i].op], (long long)at[0], (long long)at[1]);
            fflush(stdout);
            return 1;
        }
    return 0;
}

static void addcop(int kind, int al, int ml, int keyvar, int forge, const char *name)
{
    cop_t *o = &cops[ncops++];
    ull len;
    o->kind = kind, o->name = name;
    srs = 31337 + keyvar;
    srndfill(o->x.k, 16), srndfill(o->x.n, 16), srndfill(o->x.ad, sizeof o->x.ad), srndfill(o->x.m, sizeof o->x.m);
    o->x.al = al, o->x.ml = ml;
    if (kind == 1) {
        crypto_aead_encrypt(o->x.c, &len, o->x.m, ml, o->x.ad, al, NULL, o->x.n, o->x.k);
        if (forge) o->x.c[ml + 9] ^= 4;
    }
}

static int mode_conc(int level, ull cap, int budget)
{
    time_t stop = time(NULL) + budget;
    int budget_hit = 0;
    int i, a, b, bad = 0, unseen = 0;
    ull schedules = 0, capped = 0;
    snapshot();
    sem_init(&finished, 0, 0);
    srs = 1, srndfill(hin, 64);
    /* what each operation is; the ciphertexts are made before anything is recorded, then the state is put back */
    addcop(0, 21, 41, 0, 0, "encrypt");
    addcop(1, 21, 41, 0, 0, "decrypt");
    addcop(1, 21, 41, 0, 1, "refuse");
    addcop(0, 3, 5, 1, 0, "encrypt(short, other key)");
    addcop(1, 3, 5, 1, 0, "decrypt(short, other key)");
    if (HAS_HASH) addcop(2, 0, 37, 0, 0, "hash"), addcop(2, 0, 0, 0, 0, "hash(empty)");
    if (level > 0) {
        addcop(1, 3, 5, 1, 1, "refuse(short, other key)");
        addcop(0, 0, 0, 2, 0, "encrypt(empty)");
        addcop(1, 0, 0, 2, 0, "decrypt(empty)");
        addcop(0, 40, 8, 3, 0, "encrypt(long ad)");
        addcop(1, 0, 90, 3, 0, "decrypt(long message)");
        addcop(0, 150, 1040, 4, 0, "encrypt(longer message)");
        addcop(1, 150, 1040, 4, 0, "decrypt(longer message)");
    }
    restore();
    pthread_t th[NT];
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    for (i = 0; i < NT; i++) {
        T[i].id = i;
        sem_init(&T[i].go, 0, 0);
        char *st = mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (st == MAP_FAILED || pthread_attr_setstack(&attr, st, 1 << 20)) { printf("ERROR no stack\n"); return 2; }
        T[i].slo = (uintptr_t)st, T[i].shi = (uintptr_t)st + (1 << 20);
        pthread_create(&th[i], &attr, worker, &T[i]);
    }
    limit = ~0ULL;
    at[0] = at[1] = ~0ULL;
    /* alone, from the initial state: the result, and what shared memory is written */
    for (i = 0; i < ncops; i++) {
        size_t n0 = nwset;
        collecting = 1;
        run_schedule(i, -1, 0);
        ret_[i] = T[0].ret, len_[i] = T[0].len;
        __real_memcpy(out_[i], T[0].out, sizeof T[0].out);
        if (restore() && nwset == n0 && !nwset) unseen = 1;
        collecting = 0;
    }
    /* and from the state that other calls leave */
    for (i = 0; i < ncops; i++) {
        collecting = 1;
        recording = 2;
        T[0].op = i;
        for (a = 0; a < ncops; a++) {
            T[0].op = a, T[0].done = 0, T[1].done = 1;
            recording = 2;
            sem_post(&T[0].go);
            while (sem_wait(&finished)) {}
            recording = 0;
            stat_calls++;
        }
        collecting = 0;
    }
    restore();
    if (unseen) blocks_too = 1;
    printf("STAT shared_written_words %zu\nSTAT programs_with_shared_writes %d\nSTAT unseen_writes %d\n", nwset, nwset > 0 || unseen, unseen);
    for (i = 0; i < ncops; i++) {       /* how many scheduling points */
        run_schedule(i, -1, 0);
        pts_[i] = T[0].points;
        if (!agrees(&T[0])) { printf("ERROR an operation alone does not repeat its result\n"); return 2; }
        printf("STAT max:points %llu\n", pts_[i]);
    }
    for (a = 0; a < ncops && !bad; a++)
        for (b = 0; b < ncops && !bad; b++) {
            if (time(NULL) > stop) { budget_hit++; continue; }
            ull n = pts_[a], m = pts_[b], i0, j0, si, sj;
            limit = 8 * (n > m ? n : m) + 100000;
            /* no preemption: one after the other */
            at[0] = at[1] = ~0ULL;
            run_schedule(a, b, 0), schedules++;
            if (check_pair(a, b, "one after the other")) { bad = 1; break; }
            /* one preemption of the first call */
            si = n > cap ? n / cap + 1 : 1;
            if (si > 1) capped++;
            for (i0 = 0; i0 < n && !bad && time(NULL) <= stop; i0 += si) {
                at[0] = i0, at[1] = ~0ULL;
                run_schedule(a, b, 0), schedules++;
                bad |= check_pair(a, b, "one preemption");
            }
            /* and one of the second */
            if (n && m) {
                ull tot = n * m;
                si = sj = 1;
                while (tot / (si * sj) > cap) { if (n / si > m / sj) si++; else sj++; }
                if (si * sj > 1) capped++;
                for (i0 = 0; i0 < n && !bad && time(NULL) <= stop; i0 += si)
                    for (j0 = 0; j0 < m && !bad; j0 += sj) {
                        at[0] = i0, at[1] = j0;
                        run_schedule(a, b, 0), schedules++;
                        bad |= check_pair(a, b, "two preemptions");
                    }
            }
        }
    quitting = 1;
    for (i = 0; i < NT; i++) sem_post(&T[i].go);
    for (i = 0; i < NT; i++) pthread_join(th[i], NULL);
    printf("STAT schedules %llu\nSTAT pairs_capped %llu\nSTAT overrun %d\nSTAT operations %d\nSTAT pairs_out_of_time %d\n", schedules, capped, overrun, ncops, budget_hit);
    return bad;
}

static void on_fault(int sig)
{
    char b[64];
    int n = snprintf(b, sizeof b, "FAIL trace.0 the program died with signal %d\n", sig);
    if (write(1, b, n) < 0) _exit(3);
    _exit(1);
}

int main(int argc, char **argv)
{
    int r;
    if (argc < 4) return 2;
    signal(SIGSEGV, on_fault), signal(SIGBUS, on_fault), signal(SIGILL, on_fault);
    if (!strcmp(argv[1], "ct")) r = mode_ct(atoi(argv[2]), atoi(argv[3]), argc > 4 ? atoi(argv[4]) : 0);
    else r = mode_conc(atoi(argv[2]), strtoull(argv[3], 0, 0), argc > 4 ? atoi(argv[4]) : 300);
    if (r == 2) return 2;
    stats();
    printf("DONE\n");
    return r;
}
