/* Seams of the library as loaded by the scripting interface: per-actor random
 * streams and clocks, memory locking that needs no privileges. */
#include <sodium.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
#include <sys/time.h>

#define ACTORS 64
static struct { uint64_t s[4]; int64_t ms; } A[ACTORS];
static int cur;
static uint64_t draws;

static uint64_t rotl(uint64_t x, int k) { return (x<<k)|(x>>(64-k)); }
static uint64_t nextu(uint64_t s[4]) {
  const uint64_t r=rotl(s[1]*5,7)*9,t=s[1]<<17;
  s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45);
  return r;
}
void pyseam_seed(int a, uint64_t seed) {
  for(int i=0;i<4;i++) {
    uint64_t z=(seed+=0x9e3779b97f4a7c15ULL);
    z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; A[a%ACTORS].s[i]=z^(z>>31);
  }
}
void pyseam_clock(int a, int64_t ms) { A[a%ACTORS].ms=ms; }
void pyseam_use(int a) { cur=a%ACTORS; }
uint64_t pyseam_draws(void) { return draws; }

static const char *rn(void) { return "simulated"; }
static void rbuf(void * const buf, const size_t size) {
  uint8_t *p=buf; draws++;
  for(size_t i=0;i<size;i+=8) { uint64_t v=nextu(A[cur].s); memcpy(p+i,&v,size-i<8?size-i:8); }
}
static uint32_t r32(void) { uint32_t v; rbuf(&v,sizeof v); return v; }
static randombytes_implementation impl={ rn, r32, NULL, NULL, rbuf, NULL };
int pyseam_init(void) {
  for(int i=0;i<ACTORS;i++) { pyseam_seed(i,i+1); A[i].ms=1700000000000LL; }
  randombytes_set_implementation(&impl);
  return sodium_init();
}
time_t __wrap_time(time_t *t) { time_t r=A[cur].ms/1000; if(t) *t=r; return r; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec=A[cur].ms/1000; tv->tv_usec=(A[cur].ms%1000)*1000; return 0; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { (void)id; ts->tv_sec=A[cur].ms/1000; ts->tv_nsec=(A[cur].ms%1000)*1000000; return 0; }
int __wrap_sodium_mlock(void * const addr, const size_t len) { (void)addr; (void)len; return 0; }
int __wrap_sodium_munlock(void * const addr, const size_t len) { sodium_memzero(addr,len); return 0; }
/* what the library holds on the heap */
static int64_t live;
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void __real_free(void *p);
void *__wrap_malloc(size_t n) { void *p=__real_malloc(n); live+=p!=NULL; return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p=__real_calloc(n,m); live+=p!=NULL; return p; }
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n) { void *q=__real_realloc(p,n); live+=(p==NULL&&q!=NULL)-(p!=NULL&&n==0); return q; }
void __wrap_free(void *p) { live-=p!=NULL; __real_free(p); }
int64_t pyseam_live(void) { return live; }
/* the same, for the pieces that the scripts take and give back themselves */
void *pyseam_malloc(size_t n) { return __wrap_malloc(n); }
void pyseam_free(void *p) { __wrap_free(p); }
