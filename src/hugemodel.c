/* Prints a line of data/huge.txt: what the model gives for runner's mode_huge.   hugemodel INST KIND LENGTH TIERS */
#include "isapmodel.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define P (1 << 20)
static uint8_t pat[P];
static void hex(const uint8_t *p, int n) { while (n--) printf("%02x", *p++); }
int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    model_track = 0;
    int inst = atoi(argv[1]), kind = atoi(argv[2]), i;
    unsigned long long L = strtoull(argv[3], 0, 0), o;
    const inst_t *I = &INST[inst];
    uint8_t k[16], n[16], tag[32], c[32], out[32];
    walk_t w;
    ks_t z;
    for (i = 0; i < 16; i++) k[i] = (uint8_t)(7 * i + 1), n[i] = (uint8_t)(13 * i + 5);
    for (o = 0; o < P; o++) pat[o] = (uint8_t)((o * 2654435761u) >> 13);
    printf("%d %d %llu %s ", inst, kind, L, argv[4]);
    if (kind == 0) {
        enc_begin(I, k, n, &z);
        for (i = 0; i < 5; i++) c[i] = pat[i] ^ enc_byte(I, &z);
        mac_begin(I, n, &w);
        for (o = 0; o < L; o++) mac_ad(I, &w, pat[o % P]);
        mac_sep(I, &w);
        for (i = 0; i < 5; i++) mac_ct(I, &w, c[i]);
        mac_end(I, &w, k, tag);
        printf("- 0 21 "), hex(c, 5), hex(tag, 16);
    } else if (kind == 1) {
        mac_begin(I, n, &w);
        for (i = 0; i < 5; i++) mac_ad(I, &w, pat[i]);
        mac_sep(I, &w);
        for (o = 0; o < L; o++) mac_ct(I, &w, pat[o % P]);
        mac_end(I, &w, k, tag);
        enc_begin(I, k, n, &z);
        for (o = 0; o < L; o++) {
            uint8_t b = pat[o % P] ^ enc_byte(I, &z);
            if (L - o <= 32) out[32 - (L - o)] = b;
        }
        hex(tag, 16), printf(" 0 %llu ", L), hex(out, 32);
    } else {
        hash_begin(&w);
        for (o = 0; o < L; o++) hash_byte(&w, pat[o % P]);
        hash_end(&w, out);
        printf("- 0 0 "), hex(out, 32);
    }
    printf("\n");
    return 0;
}
