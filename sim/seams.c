#define _GNU_SOURCE
#include "seams.h"
#include <sodium.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sys/time.h>
#include "XK.h"

seam_ctx *seam_cur = NULL;
void (*seam_on_draw)(seam_ctx *c, const uint8_t *buf, size_t len) = NULL;
void (*seam_on_keypair)(seam_ctx *c, const uint8_t *pk, const uint8_t *sk) = NULL;
void (*seam_on_pack)(seam_ctx *c, uint32_t len, uint8_t *msg) = NULL;
void (*seam_on_auth_key)(seam_ctx *c, const uint8_t *key) = NULL;
void (*seam_yield_fn)(void) = NULL;

void seam_yield(void) { if(seam_yield_fn) seam_yield_fn(); }

static uint64_t splitmix(uint64_t *x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
void seam_seed(seam_ctx *c, uint64_t seed) { for(int i=0;i<4;i++) c->s[i]=splitmix(&seed); }

static uint64_t rotl(uint64_t x, int k) { return (x<<k)|(x>>(64-k)); }
static uint64_t nextu(uint64_t s[4]) {
  const uint64_t r = rotl(s[1]*5,7)*9, t = s[1]<<17;
  s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45);
  return r;
}

static seam_ctx fallback = {.s={1,2,3,4}, .clock_ms=1700000000000LL};
static seam_ctx *cur(void) { return seam_cur?seam_cur:&fallback; }

/* ---- randomness ---- */
static const char *rn(void) { return "simulated"; }
static void rbuf(void * const buf, const size_t size) {
  seam_ctx *c=cur();
  uint8_t *p=buf;
  for(size_t i=0;i<size;i+=8) {
    uint64_t v=nextu(c->s);
    memcpy(p+i,&v,size-i<8?size-i:8);
  }
  c->draws++;
  c->draw_bytes+=size;
  if(seam_on_draw) seam_on_draw(c,p,size);
}
static uint32_t r32(void) { uint32_t v; rbuf(&v,sizeof v); return v; }
static randombytes_implementation impl = { rn, r32, NULL, NULL, rbuf, NULL };

void seam_init(void) {
  randombytes_set_implementation(&impl);
  if(sodium_init()<0) { fprintf(stderr,"sodium_init failed\n"); exit(3); }
  fallback.s[0]=1; fallback.s[1]=2; fallback.s[2]=3; fallback.s[3]=4;
}

/* ---- clock ---- */
static int64_t now_ms(void) {
  seam_ctx *c=cur();
  c->time_calls++;
  c->clock_ms+=c->tick_ms;
  if(c->jump_at && c->time_calls==c->jump_at) c->clock_ms+=c->jump_ms;
  if(c->clock_ms<c->clock_lo) c->clock_lo=c->clock_ms;
  if(c->clock_ms>c->clock_hi) c->clock_hi=c->clock_ms;
  return c->clock_ms;
}
time_t __wrap_time(time_t *t) {
  time_t r=(time_t)(now_ms()/1000);
  if(t) *t=r;
  return r;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
  (void)tz; int64_t m=now_ms(); tv->tv_sec=m/1000; tv->tv_usec=(m%1000)*1000; return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  (void)id; int64_t m=now_ms(); ts->tv_sec=m/1000; ts->tv_nsec=(m%1000)*1000000; return 0;
}

/* ---- memory locking ---- */
int __wrap_sodium_mlock(void * const addr, const size_t len) {
  seam_yield();
  seam_ctx *c=cur();
  c->mlock_calls++;
  if(c->mlock_fail_at && c->mlock_calls==c->mlock_fail_at) { c->mlock_failed++; return -1; }
  if(c->locked<64) { c->region[c->locked].a=addr; c->region[c->locked].l=len; c->locked++; }
  return 0;
}
int __wrap_sodium_munlock(void * const addr, const size_t len) {
  seam_yield();
  seam_ctx *c=cur();
  sodium_memzero(addr,len);
  for(int64_t i=c->locked-1;i>=0;i--) if(c->region[i].a==addr && c->region[i].l<=len) { c->region[i]=c->region[--c->locked]; break; }
  return 0;
}

/* ---- heap contents and ownership ---- */
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void __real_free(void *p);
static struct own { void *p; seam_ctx *c; } *own;
static size_t own_cap, own_used;
static size_t own_slot(struct own *t, size_t cap, void *p) {
  size_t i=((uintptr_t)p>>4)*0x9e3779b97f4a7c15ULL>>20&(cap-1);
  while(t[i].p && t[i].p!=p) i=(i+1)&(cap-1);
  return i;
}
static void own_set(void *p, seam_ctx *c) {
  if(own_used*2>=own_cap) {
    size_t cap=own_cap?own_cap*2:4096; struct own *t=__real_calloc(cap,sizeof *t); own_used=0;
    for(size_t i=0;i<own_cap;i++) if(own[i].c) { t[own_slot(t,cap,own[i].p)]=own[i]; own_used++; }
    __real_free(own); own=t; own_cap=cap;
  }
  size_t i=own_slot(own,own_cap,p);
  if(!own[i].p) own_used++;
  own[i]=(struct own){p,c}; c->held++;
}
void seam_heap_reset(void) { __real_free(own); own=NULL; own_cap=own_used=0; }
void *__wrap_malloc(size_t n) {
  void *p=__real_malloc(n);
  if(p && seam_cur) { memset(p,seam_cur->fill,n); if(seam_cur->track) own_set(p,seam_cur); }
  return p;
}
void *__wrap_calloc(size_t n, size_t m) {
  void *p=__real_calloc(n,m);
  if(p && seam_cur && seam_cur->track) own_set(p,seam_cur);
  return p;
}
void __wrap_free(void *p) {
  if(p && own_cap) { size_t i=own_slot(own,own_cap,p); if(own[i].c) { own[i].c->held--; own[i].c=NULL; } }
  __real_free(p);
}
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) {
  struct seam_ctx *c=NULL; if(p && own_cap) { size_t i=own_slot(own,own_cap,p); c=own[i].c; if(c) { c->held--; own[i].c=NULL; } }
  void *q=__real_realloc(p,n); void *live=q?q:(n?p:NULL);
  if(!p && seam_cur && seam_cur->track) c=seam_cur;
  if(c && live) own_set(live,c);
  return q;
}
void *seam_raw_malloc(size_t n) { return __real_malloc(n); }

/* fills the unused part of the stack, so that uninitialised locals of the next
 * call contain `fill` */
__attribute__((noinline,no_sanitize("address"))) void seam_dirty_stack(uint8_t fill) {
  volatile uint8_t a[96*1024];
  for(size_t i=0;i<sizeof a;i++) a[i]=fill;
  __asm__ volatile("" ::: "memory");
}

/* ---- key generation ---- */
int __real_crypto_sign_keypair(unsigned char *pk, unsigned char *sk);
int __wrap_crypto_sign_keypair(unsigned char *pk, unsigned char *sk) {
  seam_yield();
  int r=__real_crypto_sign_keypair(pk,sk);
  if(seam_on_keypair && seam_cur) seam_on_keypair(seam_cur,pk,sk);
  return r;
}
int __real_crypto_sign_seed_keypair(unsigned char *pk, unsigned char *sk, const unsigned char *seed);
int __wrap_crypto_sign_seed_keypair(unsigned char *pk, unsigned char *sk, const unsigned char *seed) {
  seam_yield();
  int r=__real_crypto_sign_seed_keypair(pk,sk,seed);
  if(seam_on_keypair && seam_cur) seam_on_keypair(seam_cur,pk,sk);
  return r;
}

/* ---- channel payloads and keys ---- */
Noise_XK_encap_message_t *__real_Noise_XK_pack_message_with_conf_level(uint8_t level, uint32_t len, uint8_t *msg);
Noise_XK_encap_message_t *__wrap_Noise_XK_pack_message_with_conf_level(uint8_t level, uint32_t len, uint8_t *msg) {
  if(seam_on_pack && seam_cur && len>0) {
    uint8_t *copy=malloc(len);
    memcpy(copy,msg,len);
    seam_on_pack(seam_cur,len,copy);
    Noise_XK_encap_message_t *r=__real_Noise_XK_pack_message_with_conf_level(level,len,copy);
    free(copy);
    return r;
  }
  return __real_Noise_XK_pack_message_with_conf_level(level,len,msg);
}
int __real_crypto_auth(unsigned char *out, const unsigned char *in, unsigned long long inlen, const unsigned char *k);
int __wrap_crypto_auth(unsigned char *out, const unsigned char *in, unsigned long long inlen, const unsigned char *k) {
  seam_yield();
  if(seam_on_auth_key && seam_cur) seam_on_auth_key(seam_cur,k);
  return __real_crypto_auth(out,in,inlen,k);
}
