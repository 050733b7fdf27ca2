/* C18: calls through a trampoline that fills every register the callee may use with junk, gives every register it must preserve a
 * known value, and looks at all of them, at the stack above the arguments and at the machine's modes afterwards.
 *
 *   regs MAXAD MAXM FAR
 */
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

typedef unsigned char u8;
typedef unsigned long long ull;
int crypto_aead_encrypt(u8 *c, ull *clen, const u8 *m, ull mlen, const u8 *ad, ull adlen, const u8 *nsec, const u8 *npub, const u8 *k);
int crypto_aead_decrypt(u8 *m, ull *mlen, u8 *nsec, const u8 *c, ull clen, const u8 *ad, ull adlen, const u8 *npub, const u8 *k);
#ifdef CRYPTO_HASH
int crypto_hash(u8 *out, const u8 *in, ull inlen);
#define HAS_HASH 1
#else
static int crypto_hash(u8 *out, const u8 *in, ull inlen) { (void)out, (void)in, (void)inlen; return -99; }
#define HAS_HASH 0
#endif

#define NSTK 17
#define G __attribute__((used)) volatile
G uintptr_t rc_fn, rc_sp, rc_spbefore, rc_spafter, rc_flags, rc_flagsafter, rc_ret, rc_avx;
G uintptr_t rc_arg[6], rc_stk[NSTK], rc_after[NSTK], rc_junk[4], rc_keep[8], rc_got[8];
G uint32_t rc_mxcsr[2], rc_cw[2], rc_env[8];
G u8 rc_vec[64];
void regs_call(void);

#if defined(__x86_64__)
#define NKEEP 6
static const char *const keepname[] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };
__asm__(
    ".pushsection .text\n.p2align 4\n.globl regs_call\n.type regs_call,@function\nregs_call:\n"
    "pushq %rbx\npushq %rbp\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp, rc_sp(%rip)\nstmxcsr rc_mxcsr(%rip)\nfninit\nfnstcw rc_cw(%rip)\n"
    "subq $136, %rsp\n"
    ".irp i,0,8,16,24,32,40,48,56,64,72,80,88,96,104,112,120,128\nmovq rc_stk+\\i(%rip), %rax\nmovq %rax, \\i(%rsp)\n.endr\n"
    "cmpq $1, rc_avx(%rip)\njb 1f\nja 2f\n"
    ".irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15\nvmovdqu rc_vec(%rip), %ymm\\i\n.endr\njmp 3f\n"
    "2:\n.irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31\nvmovdqu64 rc_vec(%rip), %zmm\\i\n.endr\n"
    ".irp i,0,1,2,3,4,5,6,7\nkmovq rc_vec(%rip), %k\\i\n.endr\njmp 3f\n"
    "1:\n.irp i,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15\nmovdqu rc_vec(%rip), %xmm\\i\n.endr\n"
    "3:\n"
    "movq rc_keep(%rip), %rbx\nmovq rc_keep+8(%rip), %rbp\nmovq rc_keep+16(%rip), %r12\n"
    "movq rc_keep+24(%rip), %r13\nmovq rc_keep+32(%rip), %r14\nmovq rc_keep+40(%rip), %r15\n"
    "movq rc_arg(%rip), %rdi\nmovq rc_arg+8(%rip), %rsi\nmovq rc_arg+16(%rip), %rdx\n"
    "movq rc_arg+24(%rip), %rcx\nmovq rc_arg+32(%rip), %r8\nmovq rc_arg+40(%rip), %r9\n"
    "movq %rsp, rc_spbefore(%rip)\n"
    "pushq rc_flags(%rip)\npopfq\n"
    "movq rc_junk(%rip), %rax\nmovq rc_junk+8(%rip), %r10\nmovq rc_junk+16(%rip), %r11\n"
    "call *rc_fn(%rip)\n"
    "movq %rax, rc_ret(%rip)\nmovq %rsp, rc_spafter(%rip)\n"
    "pushfq\npopq rc_flagsafter(%rip)\npushq $2\npopfq\n"
    "movq %rbx, rc_got(%rip)\nmovq %rbp, rc_got+8(%rip)\nmovq %r12, rc_got+16(%rip)\n"
    "movq %r13, rc_got+24(%rip)\nmovq %r14, rc_got+32(%rip)\nmovq %r15, rc_got+40(%rip)\n"
    "movq rc_spbefore(%rip), %rsp\n"
    ".irp i,0,8,16,24,32,40,48,56,64,72,80,88,96,104,112,120,128\nmovq \\i(%rsp), %rax\nmovq %rax, rc_after+\\i(%rip)\n.endr\n"
    "movq rc_sp(%rip), %rsp\n"
    "stmxcsr rc_mxcsr+4(%rip)\nfnstcw rc_cw+4(%rip)\nfnstenv rc_env(%rip)\nfninit\nldmxcsr rc_mxcsr(%rip)\n"
    "cmpq $0, rc_avx(%rip)\nje 4f\nvzeroupper\n4:\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbp\npopq %rbx\nret\n.size regs_call,.-regs_call\n.popsection\n");
#elif defined(__arm__)
#define NKEEP 8
static const char *const keepname[] = { "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11" };
__asm__(
    ".pushsection .text.regs,\"ax\",%progbits\n.syntax unified\n.arm\n.p2align 2\n.globl regs_call\n.type regs_call,%function\nregs_call:\n"
    "push {r4-r11, lr}\n"
    "ldr r4, =rc_sp\nstr sp, [r4]\n"
    "sub sp, sp, #68\n"
    "ldr r4, =rc_stk\nmov r5, #0\n1: ldr r6, [r4, r5]\nstr r6, [sp, r5]\nadd r5, r5, #4\ncmp r5, #68\nblt 1b\n"
    "ldr r4, =rc_spbefore\nstr sp, [r4]\n"
    "ldr r12, =rc_flags\nldr r12, [r12]\nmsr CPSR_fs, r12\n"
    "ldr lr, =rc_fn\nldr lr, [lr]\n"
    "ldr r12, =rc_keep\nldmia r12, {r4-r11}\n"
    "ldr r12, =rc_arg\nldmia r12, {r0-r3}\n"
    "ldr r12, =rc_junk\nldr r12, [r12]\n"
    "blx lr\n"
    "ldr r12, =rc_ret\nstr r0, [r12]\nldr r12, =rc_got\nstmia r12, {r4-r11}\n"
    "ldr r12, =rc_spafter\nstr sp, [r12]\nldr r12, =rc_flagsafter\nmrs r0, CPSR\nstr r0, [r12]\n"
    "ldr r12, =rc_spbefore\nldr sp, [r12]\n"
    "ldr r4, =rc_after\nmov r5, #0\n1: ldr r6, [sp, r5]\nstr r6, [r4, r5]\nadd r5, r5, #4\ncmp r5, #68\nblt 1b\n"
    "ldr r12, =rc_sp\nldr sp, [r12]\n"
    "pop {r4-r11, pc}\n.ltorg\n.size regs_call,.-regs_call\n.popsection\n");
#else
#error
#endif

static ull cases, calls, nfail;
static int AL, ML, JP;
static const char *what = "";

static void fail(const char *s, ull a, ull b)
{
    if (nfail++ < 20)
        printf("FAIL regs.%d.%d.%d %s: adlen=%d mlen=%d: %s (0x%llx, before the call 0x%llx)\n", AL, ML, JP, what, AL, ML, s, a, b);
    fflush(stdout);
}

static void on_fault(int sig)
{
    char b[160];
    int n = snprintf(b, sizeof b, "FAIL regs.%d.%d.%d %s: signal %d adlen=%d mlen=%d\n", AL, ML, JP, what, sig, AL, ML);
    if (write(1, b, n) < 0) _exit(3);
    _exit(1);
}

static ull srs = 7;
static ull srnd(void)
{
    srs += 0x9e3779b97f4a7c15ULL;
    ull z = srs;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uintptr_t junk(void) { return JP == 0 ? 0 : JP == 1 ? ~(uintptr_t)0 : (uintptr_t)srnd(); }

/* calls with the registers set; returns what the callee returned */
static int through(int nstack)
{
    int i;
    for (i = nstack; i < NSTK; i++) rc_stk[i] = (uintptr_t)0xc0ffee00 + i;
    for (i = 0; i < 4; i++) rc_junk[i] = junk();
    for (i = 0; i < 8; i++) rc_keep[i] = JP == 2 ? (uintptr_t)srnd() : (uintptr_t)0x5eed0001 * (i + 3);
    for (i = 0; i < 64; i++) rc_vec[i] = (u8)junk();
#ifdef __x86_64__
    rc_flags = (junk() & 0x8d5) | 2;
#else
    rc_flags = junk() & 0xf80f0000;
#endif
    regs_call();
    calls++;
    for (i = 0; i < NKEEP; i++)
        if (rc_got[i] != rc_keep[i]) {
            static char b[64];
            snprintf(b, sizeof b, "register %s is not preserved", keepname[i]);
            fail(b, rc_got[i], rc_keep[i]);
        }
    if (rc_spafter != rc_spbefore) fail("the stack pointer is not preserved", rc_spafter, rc_spbefore);
    for (i = nstack; i < NSTK; i++)
        if (rc_after[i] != rc_stk[i]) fail("the caller's stack frame is overwritten", rc_after[i], rc_stk[i]);
#ifdef __x86_64__
    if (rc_flagsafter & 0x40500) fail("direction, trap or alignment-check flag is set", rc_flagsafter, rc_flags);
    if ((rc_mxcsr[0] ^ rc_mxcsr[1]) & 0xffc0) fail("the control bits of MXCSR are changed", rc_mxcsr[1], rc_mxcsr[0]);
    if ((rc_cw[0] ^ rc_cw[1]) & 0xffff) fail("the x87 control word is changed", rc_cw[1], rc_cw[0]);
    if ((rc_env[2] & 0xffff) != 0xffff) fail("the x87/MMX registers are left in use", rc_env[2] & 0xffff, 0xffff);
#else
    if (rc_flagsafter & 0x200) fail("the endianness bit is set", rc_flagsafter, rc_flags);
#endif
    return (int)rc_ret;
}

static void word64(int *at, ull v)
{
    if (sizeof(void *) == 8) { rc_stk[(*at)++] = (uintptr_t)v; return; }
    if (*at & 1) rc_stk[(*at)++] = 0x77777777;
    rc_stk[(*at)++] = (uintptr_t)v, rc_stk[(*at)++] = (uintptr_t)(v >> 32);
}

static int enc(u8 *c, ull *cl, const u8 *m, ull ml, const u8 *ad, ull al, const u8 *n, const u8 *k)
{
    int at = 0;
    rc_fn = (uintptr_t)crypto_aead_encrypt;
    rc_arg[0] = (uintptr_t)c, rc_arg[1] = (uintptr_t)cl, rc_arg[2] = (uintptr_t)m;
    if (sizeof(void *) == 8) {
        rc_arg[3] = (uintptr_t)ml, rc_arg[4] = (uintptr_t)ad, rc_arg[5] = (uintptr_t)al;
        rc_stk[0] = 0, rc_stk[1] = (uintptr_t)n, rc_stk[2] = (uintptr_t)k;
        return through(3);
    }
    rc_arg[3] = junk();
    word64(&at, ml), rc_stk[at++] = (uintptr_t)ad, word64(&at, al), rc_stk[at++] = 0, rc_stk[at++] = (uintptr_t)n, rc_stk[at++] = (uintptr_t)k;
    return through(at);
}

static int dec(u8 *m, ull *ml, const u8 *c, ull cl, const u8 *ad, ull al, const u8 *n, const u8 *k)
{
    int at = 0;
    rc_fn = (uintptr_t)crypto_aead_decrypt;
    rc_arg[0] = (uintptr_t)m, rc_arg[1] = (uintptr_t)ml, rc_arg[2] = 0, rc_arg[3] = (uintptr_t)c;
    if (sizeof(void *) == 8) {
        rc_arg[4] = (uintptr_t)cl, rc_arg[5] = (uintptr_t)ad;
        rc_stk[0] = (uintptr_t)al, rc_stk[1] = (uintptr_t)n, rc_stk[2] = (uintptr_t)k;
        return through(3);
    }
    word64(&at, cl), rc_stk[at++] = (uintptr_t)ad, word64(&at, al), rc_stk[at++] = (uintptr_t)n, rc_stk[at++] = (uintptr_t)k;
    return through(at);
}

static int hash(u8 *out, const u8 *in, ull l)
{
    rc_fn = (uintptr_t)crypto_hash;
    rc_arg[0] = (uintptr_t)out, rc_arg[1] = (uintptr_t)in, rc_arg[2] = (uintptr_t)l, rc_arg[3] = (uintptr_t)(l >> 16 >> 16);
    if (sizeof(void *) == 8) rc_arg[3] = junk();
    rc_arg[4] = junk(), rc_arg[5] = junk();
    return through(0);
}

static void shape(int al, int ml, const u8 *ad, const u8 *m, const u8 *n, const u8 *k, u8 *c, u8 *want, u8 *p)
{
    ull len = 0, wlen = 0;
    int r, w, i;
    AL = al, ML = ml;
    for (JP = 0; JP < 3; JP++) {
        cases++;
        what = "encrypt", wlen = 0;
        w = crypto_aead_encrypt(want, &wlen, m, ml, ad, al, NULL, n, k);
        memset(c, 0x5a, ml + 16), len = 0;
        r = enc(c, &len, m, ml, ad, al, n, k);
        if (r != w || len != wlen || memcmp(c, want, ml + 16)) fail("the result depends on what registers hold on entry", r, w);
        what = "decrypt", wlen = 0, memset(p, 0x5a, ml);
        w = crypto_aead_decrypt(p, &wlen, NULL, want, ml + 16, ad, al, n, k);
        memset(p, 0x5a, ml), len = 0;
        r = dec(p, &len, want, ml + 16, ad, al, n, k);
        if (r != w || (r == 0 && (len != wlen || memcmp(p, m, ml)))) fail("the result depends on what registers hold on entry", r, w);
        what = "decrypt a forgery";
        want[ml + (al + 5 * ml) % 16] ^= 1 << (ml & 7);
        w = crypto_aead_decrypt(p, &wlen, NULL, want, ml + 16, ad, al, n, k);
        r = dec(p, &len, want, ml + 16, ad, al, n, k);
        if (r != w) fail("the result depends on what registers hold on entry", r, w);
        what = "decrypt a short input";
        i = (al + ml) % 16;
        w = crypto_aead_decrypt(p, &wlen, NULL, want, i, ad, al, n, k);
        r = dec(p, &len, want, i, ad, al, n, k);
        if (r != w) fail("the result depends on what registers hold on entry", r, w);
    }
}

static int notable(int l)
{
    int p;
    for (p = 64; p <= 1 << 20; p <<= 1)
        if (l + 1 >= p && l <= p + 1) return 1;
    return l % 1000 == 0;
}

int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    int amax = atoi(argv[2]), mmax = atoi(argv[3]), far = atoi(argv[4]), a, m;
    u8 k[16], n[16], *A = malloc(far + 64), *M = malloc(far + 64), *c = malloc(far + 64), *w = malloc(far + 64), *p = malloc(far + 64);
    if (!A || !M || !c || !w || !p) return 2;
    signal(SIGSEGV, on_fault), signal(SIGBUS, on_fault), signal(SIGILL, on_fault), signal(SIGFPE, on_fault), signal(SIGTRAP, on_fault);
#ifdef __x86_64__
    rc_avx = __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512f") ? 2 : __builtin_cpu_supports("avx") ? 1 : 0;
    printf("STAT max:vector_width %d\n", rc_avx == 2 ? 512 : rc_avx == 1 ? 256 : 128);
#endif
    for (a = 0; a < 16; a++) k[a] = (u8)srnd(), n[a] = (u8)srnd();
    for (a = 0; a < far + 64; a++) A[a] = (u8)srnd(), M[a] = (u8)srnd();
    for (a = 0; a <= amax; a++)
        for (m = 0; m <= mmax; m++) shape(a, m, A, M, n, k, c, w, p);
    for (m = 0; m <= far; m++)
        if (m > mmax && notable(m)) shape(3, m, A, M, n, k, c, w, p);
    for (a = 0; a <= far; a++)
        if (a > amax && notable(a)) shape(a, 3, A, M, n, k, c, w, p);
    if (HAS_HASH)
        for (m = 0; m <= far; m++) {
            if (m > 2 * mmax && !notable(m)) continue;
            AL = -1, ML = m, what = "crypto_hash";
            for (JP = 0; JP < 3; JP++) {
                int rw, r;
                cases++;
                rw = crypto_hash(w, M, m);
                memset(c, 0x5a, 32);
                r = hash(c, M, m);
                if (r != rw || memcmp(c, w, 32)) fail("the result depends on what registers hold on entry", r, rw);
            }
        }
    printf("STAT cases %llu\nSTAT calls %llu\nDONE\n", cases, calls);
    return nfail ? 1 : 0;
}
