/* Executable state-machine model of ISAP v2.0 and Ascon-Hash, written from the specification,
 * independent of every implementation in the repository.
 *
 * The mode is modelled as a sponge automaton.  A state is (machine, phase, position in the rate,
 * sponge value); a transition is one of: absorb one byte, absorb one re-keying bit, pad, separate
 * domains, overwrite with a session key, squeeze one byte, permute.  Every state that is entered goes through
 * enter(), which counts transitions and distinct states. */
#ifndef ISAPMODEL_H
#define ISAPMODEL_H
#include <stdint.h>
#include <stddef.h>

typedef struct {
    const char *name;
    int keccak;            /* 0: Ascon-p on 5 x 64 bits, 1: Keccak-p[400] on 25 x 16 bits */
    int bytes;             /* state size */
    int rate;              /* rH in bytes */
    int sH, sB, sE, sK;    /* rounds */
} inst_t;

extern const inst_t INST[4];   /* isapa128av20 isapa128v20 isapk128av20 isapk128v20 */

typedef struct { uint8_t b[50]; } sponge_t;

enum phase { PH_MAC_INIT = 1, PH_MAC_AD, PH_MAC_DS, PH_MAC_CT, PH_MAC_Y, PH_MAC_KA, PH_MAC_TAG,
             PH_RK_INIT, PH_RK_ABSORB, PH_RK_DONE, PH_ENC_INIT, PH_ENC_SQUEEZE,
             PH_HASH_ABSORB, PH_HASH_SQUEEZE };

extern uint64_t model_states, model_transitions;
extern int model_track;        /* 1: remember distinct states */
void model_reset(void);

void permute(const inst_t *I, sponge_t *s, int rounds);

/* MAC walk, one byte at a time */
typedef struct { sponge_t s; int pos; } walk_t;
void mac_begin(const inst_t *I, const uint8_t n[16], walk_t *w);
void mac_ad(const inst_t *I, walk_t *w, uint8_t byte);
void mac_sep(const inst_t *I, walk_t *w);          /* pad AD, permute, domain separation */
void mac_ct(const inst_t *I, walk_t *w, uint8_t byte);
void mac_end(const inst_t *I, const walk_t *w, const uint8_t k[16], uint8_t tag[16]);

typedef struct { sponge_t s; int pos; } ks_t;
void enc_begin(const inst_t *I, const uint8_t k[16], const uint8_t n[16], ks_t *z);
uint8_t enc_byte(const inst_t *I, ks_t *z);

void model_encrypt(const inst_t *I, const uint8_t *k, const uint8_t *n, const uint8_t *ad, uint64_t adlen,
                   const uint8_t *m, uint64_t mlen, uint8_t *c /* mlen+16 */);

void hash_begin(walk_t *w);
void hash_byte(walk_t *w, uint8_t byte);
void hash_end(const walk_t *w, uint8_t out[32]);
#endif
