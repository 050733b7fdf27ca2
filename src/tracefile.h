/* Traces of the model: one record per completed run of the sponge automaton. */
#ifndef TRACEFILE_H
#define TRACEFILE_H
#include <stdint.h>
#define TRACE_MAGIC 0x31435254u
typedef struct { uint32_t magic, count; uint64_t blob, bloblen; } thead_t;
typedef struct {
    uint32_t kind;      /* 0 AEAD, 1 hash */
    uint32_t tier;      /* 0 every implementation, 1 not the slow ones, 2 fast ones only */
    uint32_t adlen, mlen;
    uint64_t k, n, ad, m, ct;   /* offsets into the blob; ct: mlen bytes (hash: 32-byte digest) */
    uint8_t tag[16];
    uint32_t set, pad;
} trec_t;
#endif
