/* Seams between the library under test and the simulator: clock, randomness,
 * memory locking, heap contents, key generation, and calls into libsodium. */
#ifndef SEAMS_H
#define SEAMS_H
#include <stdint.h>
#include <stddef.h>
#include <time.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct seam_ctx {
  uint64_t s[4];          /* random stream of this participant */
  int64_t clock_ms;       /* what its clock shows */
  int64_t clock_lo, clock_hi; /* least and greatest value it showed in this call */
  int64_t tick_ms;        /* added on every look at the clock */
  uint64_t time_calls;
  uint64_t jump_at;       /* clock jumps at this look (0: never) */
  int64_t jump_ms;
  uint64_t mlock_calls;
  uint64_t mlock_fail_at; /* this lock request fails (0: never) */
  uint64_t mlock_failed;
  int64_t locked;         /* regions locked and not yet unlocked */
  struct { const void *a; size_t l; } region[64];
  uint8_t fill;           /* pattern for fresh heap memory */
  uint64_t draws;         /* number of random draws */
  uint64_t draw_bytes;
  int64_t held;           /* pieces of memory taken and not given back */
  int track;              /* follow them */
  void *user;
} seam_ctx;

extern seam_ctx *seam_cur;  /* participant executing now */

/* observers set by the simulator (may be NULL) */
extern void (*seam_on_draw)(seam_ctx *c, const uint8_t *buf, size_t len);
extern void (*seam_on_keypair)(seam_ctx *c, const uint8_t *pk, const uint8_t *sk);
extern void (*seam_on_pack)(seam_ctx *c, uint32_t len, uint8_t *msg);
extern void (*seam_on_auth_key)(seam_ctx *c, const uint8_t *key);
extern void (*seam_yield_fn)(void);

void seam_init(void);
void seam_seed(seam_ctx *c, uint64_t seed);
void seam_dirty_stack(uint8_t fill);
void seam_yield(void);
void *seam_raw_malloc(size_t n);
void seam_heap_reset(void);
#ifdef __cplusplus
}
#endif
#endif
