/* Compares the instruction and address traces of the calls that ctreal makes, as an observer prints them.
 *
 *   tracecmp TABLE GROUP BEGIN STOP END DROP -- command...
 *
 * What the command writes to descriptor 9 is the observer's output, its standard output is passed on.  GROUP, BEGIN, STOP, END, DROP are
 * the addresses of the markers.  TABLE: for every instruction that accesses memory its address and how to compute
 * the accessed address: "pc base index shift sub cond" (registers 0..15 or -1). */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned long long ull;
typedef struct { uint64_t a, b; } ev_t;
static ev_t *A, *B;
static size_t na, nb, cap;
static int active, group = -1, call, have, kept;
static ull total, compared, diffs, calls;
static uint64_t M[5];
static int complete;

static void add(uint64_t a, uint64_t b)
{
    if (nb == cap) {
        cap = cap * 2 + (1 << 20);
        A = realloc(A, cap * sizeof *A), B = realloc(B, cap * sizeof *B);
        if (!A || !B) { printf("ERROR memory\n"); exit(2); }
    }
    B[nb].a = a, B[nb++].b = b;
}

/* returns 1 if pc is a marker */
static int marker(uint64_t pc)
{
    size_t j;
    if (pc == M[0]) { group++, call = -1, have = 0, active = 0; return 1; }
    if (pc == M[1]) { call++, active = 1, complete = 0, nb = 0; return 1; }
    if (pc == M[2]) { complete = active, active = 0; return 1; }
    if (pc == M[4]) { complete = 0; return 1; }
    if (pc != M[3] || !complete) return pc == M[3];
    complete = 0, calls++, total += nb;
    if (group < 0) return 1;
    if (!have) {
        ev_t *t = A;
        A = B, B = t, na = nb, have = 1, kept = call;
        return 1;
    }
    compared++;
    for (j = 0; j < na && j < nb; j++)
        if (A[j].a != B[j].a || A[j].b != B[j].b) break;
    if ((j < na || j < nb) && diffs++ < 50)
        printf("DIFF %d %d against call %d: event %zu of %zu and %zu: %llx %llx, was %llx %llx\n", group, call, kept, j, nb, na,
               j < nb ? (ull)B[j].a : 0, j < nb ? (ull)B[j].b : 0, j < na ? (ull)A[j].a : 0, j < na ? (ull)A[j].b : 0);
    return 1;
}

static inline uint64_t hex(const char **p)
{
    uint64_t v = 0;
    for (;; (*p)++) {
        unsigned c = (unsigned char)**p;
        if (c - '0' < 10u) v = v << 4 | (c - '0');
        else if ((c | 32) - 'a' < 6u) v = v << 4 | ((c | 32) - 'a' + 10);
        else return v;
    }
}

typedef struct { uint64_t pc; int base, index, shift, sub, cond; } tab_t;
static tab_t *tab;
static size_t ntab;
static void load(const char *path)
{
    FILE *f = fopen(path, "r");
    int n = 1 << 18;
    ull pc;
    if (!f) return;
    tab = malloc(n * sizeof *tab);
    while (ntab < (size_t)n && fscanf(f, "%llx %d %d %d %d %d", &pc, &tab[ntab].base, &tab[ntab].index, &tab[ntab].shift, &tab[ntab].sub, &tab[ntab].cond) == 6)
        tab[ntab++].pc = pc;
    fclose(f);
}
static const tab_t *find(uint64_t pc)
{
    size_t lo = 0, hi = ntab;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (tab[m].pc < pc) lo = m + 1; else hi = m; }
    return lo < ntab && tab[lo].pc == pc ? &tab[lo] : NULL;
}
static int holds(int cond, uint32_t psr)
{
    int N = psr >> 31, Z = psr >> 30 & 1, C = psr >> 29 & 1, V = psr >> 28 & 1, r;
    switch (cond >> 1) {
    case 0: r = Z; break;
    case 1: r = C; break;
    case 2: r = N; break;
    case 3: r = V; break;
    case 4: r = C && !Z; break;
    case 5: r = N == V; break;
    case 6: r = !Z && N == V; break;
    default: return 1;
    }
    return cond & 1 ? !r : r;
}
/* qemu prints the state in which the instruction starts */
static uint64_t pc_now;
static uint32_t R[16];
static const tab_t *t_now;
static void qemu(const char *l)
{
    const char *p;
    if (l[0] == 'T' && !strncmp(l, "Trace ", 6)) {
        p = strchr(l, '/');
        t_now = NULL;
        if (!p) return;
        p++;
        pc_now = hex(&p);
        if (marker(pc_now)) return;
        if (active) {
            t_now = find(pc_now);
            if (!t_now) add(pc_now, 0);
        }
    } else if (t_now && l[0] == 'R' && l[3] == '=') {
        int n = (l[1] - '0') * 10 + l[2] - '0', k;
        p = l;
        for (k = 0; k < 4; k++) {
            p += 4;
            R[(n + k) & 15] = (uint32_t)hex(&p);
            if (k < 3) p++;
        }
    } else if (t_now && l[0] == 'P' && !strncmp(l, "PSR=", 4)) {
        p = l + 4;
        uint32_t psr = (uint32_t)hex(&p), a = 0;
        if (t_now->cond < 14 && !holds(t_now->cond, psr)) { add(pc_now, 2); t_now = NULL; return; }
        if (t_now->base >= 0) a = R[t_now->base];
        if (t_now->index >= 0) {
            uint32_t x = R[t_now->index] << t_now->shift;
            a = t_now->sub ? a - x : a + x;
        }
        add(pc_now, 1ULL << 63 | a);
        t_now = NULL;
    }
}

int main(int argc, char **argv)
{
    int i, fd[2], st;
    char *line = NULL;
    size_t n = 0;
    ssize_t len;
    if (argc < 9 || strcmp(argv[7], "--")) return 2;
    load(argv[1]);
    for (i = 0; i < 5; i++) M[i] = strtoull(argv[2 + i], 0, 16);
    if (pipe(fd)) return 2;
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (!pid) {
        dup2(fd[1], 9);
        if (fd[0] != 9) close(fd[0]);
        if (fd[1] != 9) close(fd[1]);
        execvp(argv[8], argv + 8);
        _exit(127);
    }
    close(fd[1]);
    FILE *f = fdopen(fd[0], "r");
    static char buf[1 << 20];
    setvbuf(f, buf, _IOFBF, sizeof buf);
    while ((len = getline(&line, &n, f)) > 0) {
        qemu(line);
    }
    waitpid(pid, &st, 0);
    printf("STAT events %llu\nSTAT pairs_of_traces %llu\nSTAT observed_calls %llu\n", total, compared, calls);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("ERROR the observed program ended with %x\n", st); return 2; }
    if (!calls) { printf("ERROR nothing was observed\n"); return 2; }
    printf("OBSERVED\n");
    return 0;
}
