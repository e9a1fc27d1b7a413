#define _GNU_SOURCE
#include "shim.h"
#include "seams.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sodium.h>
#include "oprf.h"
#include "toprf.h"
#include "dkg.h"
#include "mpmult.h"
#include "tp-dkg.h"

extern FILE *log_file;
void sh_log(int on) {
  static FILE *nul=NULL;
  if(on && !nul) nul=fopen("/dev/null","w");
  log_file = on ? nul : NULL;
}

static void *mem(size_t n, uint8_t fill) {
  void *p=NULL;
  if(n==0) n=1;
  if(posix_memalign(&p,64,n)) abort();
  memset(p,fill,n);
  return p;
}
static void *buf(size_t n, uint8_t fill) {
  void *p=seam_raw_malloc(n?n:1);
  memset(p,fill,n?n:1);
  return p;
}

struct sh_tp {
  TP_DKG_TPState *st;
  void *b[7];
  size_t cmax;
};
sh_tp *sh_tp_new(uint8_t fill) {
  sh_tp *w=calloc(1,sizeof *w);
  w->st=mem(sizeof *w->st,fill);
  return w;
}
int sh_tp_start(sh_tp *w, uint64_t eps, int n, int t, const char *name, size_t nlen, uint8_t msg0[MSG0]) {
  return tpdkg_start_tp(w->st,eps,(uint8_t)n,(uint8_t)t,name,nlen,tpdkg_msg0_SIZE,(TP_DKG_Message*)msg0);
}
void sh_tp_bufs(sh_tp *w, int n, int t, const uint8_t *lt_pks, uint8_t fill, size_t cmax) {
  w->cmax=cmax?cmax:(size_t)(t*t-1);
  w->b[0]=buf((size_t)n*t*32,fill);
  w->b[1]=buf((size_t)n*n*2,fill);
  w->b[2]=buf((size_t)n*n*tpdkg_msg8_SIZE,fill);
  w->b[3]=buf(w->cmax*sizeof(TP_DKG_Cheater),fill);
  w->b[4]=buf((size_t)n*32,fill);
  w->b[5]=buf((size_t)n*32,fill);
  w->b[6]=buf((size_t)n*8,fill);
  memcpy(w->b[5],lt_pks,(size_t)n*32);
  tpdkg_tp_set_bufs(w->st,w->b[0],w->b[1],w->b[2],w->b[3],w->cmax,w->b[4],w->b[5],w->b[6]);
}
size_t sh_tp_in(sh_tp *w) { return tpdkg_tp_input_size(w->st); }
int sh_tp_ins(sh_tp *w, size_t *sizes) { return tpdkg_tp_input_sizes(w->st,sizes); }
size_t sh_tp_out(sh_tp *w) { return tpdkg_tp_output_size(w->st); }
int sh_tp_next(sh_tp *w, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen) {
  return tpdkg_tp_next(w->st,in,inlen,out,outlen);
}
int sh_tp_msg(sh_tp *w, const uint8_t *base, size_t blen, int peer, const uint8_t **msg, size_t *len) {
  return tpdkg_tp_peer_msg(w->st,base,blen,(uint8_t)peer,msg,len);
}
int sh_tp_not_done(sh_tp *w) { return tpdkg_tp_not_done(w->st); }
size_t sh_tp_cheaters(sh_tp *w) { return w->st->cheater_len; }
size_t sh_tp_cheater_max(sh_tp *w) { return w->cmax; }
int sh_tp_cheater(sh_tp *w, size_t i, char *out, size_t outlen, int raw[5]) {
  TP_DKG_Cheater *c=&(*w->st->cheaters)[i];
  raw[0]=c->step; raw[1]=c->error; raw[2]=c->peer; raw[3]=c->other_peer; raw[4]=c->invalid_index;
  return tpdkg_cheater_msg(c,out,outlen);
}
void sh_tp_free(sh_tp *w) { for(int i=0;i<7;i++) free(w->b[i]); free(w->st); free(w); }

struct sh_peer {
  TP_DKG_PeerState *st;
  void *b[10];
  int bufs;
};
sh_peer *sh_peer_new(uint8_t fill) {
  sh_peer *w=calloc(1,sizeof *w);
  w->st=mem(sizeof *w->st,fill);
  return w;
}
int sh_peer_start(sh_peer *w, uint64_t eps, const uint8_t lt_sk[64], const uint8_t *msg0, uint8_t fill) {
  int r=tpdkg_start_peer(w->st,eps,lt_sk,(const TP_DKG_Message*)msg0);
  if(r!=0) return r;
  size_t n=w->st->n, t=w->st->t;
  w->b[0]=buf(n*32,fill);
  w->b[1]=buf(n*32,fill);
  w->b[2]=buf(n*sizeof(void*),fill);
  w->b[3]=buf(n*sizeof(void*),fill);
  w->b[4]=buf(n*sizeof(TOPRF_Share),fill);
  w->b[5]=buf(n*sizeof(TOPRF_Share),fill);
  w->b[6]=buf(n*t*32,fill);
  w->b[7]=buf(n*n*2,fill);
  w->b[8]=buf(n,fill);
  w->b[9]=buf(n*8,fill);
  tpdkg_peer_set_bufs(w->st,w->b[0],w->b[1],w->b[2],w->b[3],w->b[4],w->b[5],w->b[6],w->b[7],w->b[8],w->b[9]);
  w->bufs=1;
  return 0;
}
size_t sh_peer_in(sh_peer *w) { return tpdkg_peer_input_size(w->st); }
size_t sh_peer_out(sh_peer *w) { return tpdkg_peer_output_size(w->st); }
int sh_peer_next(sh_peer *w, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen) {
  return tpdkg_peer_next(w->st,in,inlen,out,outlen);
}
int sh_peer_not_done(sh_peer *w) { return tpdkg_peer_not_done(w->st); }
int sh_peer_n(sh_peer *w) { return w->st->n; }
int sh_peer_t(sh_peer *w) { return w->st->t; }
int sh_peer_index(sh_peer *w) { return w->st->index; }
void sh_peer_share(sh_peer *w, uint8_t out[SHARE]) { memcpy(out,&w->st->share,SHARE); }
void sh_peer_release(sh_peer *w) { if(w->bufs) tpdkg_peer_free(w->st); }
void sh_peer_free(sh_peer *w) { for(int i=0;i<10;i++) free(w->b[i]); free(w->st); free(w); }

int sh_blind(const uint8_t *x, uint8_t xlen, uint8_t *r, uint8_t *blinded) { return oprf_Blind(x,xlen,r,blinded); }
int sh_eval(const uint8_t *k, const uint8_t *blinded, uint8_t *z) { return oprf_Evaluate(k,blinded,z); }
int sh_unblind(const uint8_t *r, const uint8_t *z, uint8_t *n) { return oprf_Unblind(r,z,n); }
int sh_finalize(const uint8_t *x, uint16_t xlen, const uint8_t *n, uint8_t *rwd) { return oprf_Finalize(x,xlen,n,rwd); }
void sh_keygen(uint8_t *k) { oprf_KeyGen(k); }
int sh_h2g(const uint8_t *m, uint8_t len, uint8_t *p) { return voprf_hash_to_group(m,len,p); }
void sh_create_shares(const uint8_t *secret, int n, int t, uint8_t *shares) {
  toprf_create_shares(secret,(uint8_t)n,(uint8_t)t,(uint8_t (*)[TOPRF_Share_BYTES])shares);
}
int sh_thmult(size_t k, const uint8_t *parts, uint8_t *res) {
  return toprf_thresholdmult(k,(const uint8_t (*)[TOPRF_Part_BYTES])parts,res);
}
int sh_teval(const uint8_t *k, const uint8_t *blinded, int self, const uint8_t *idx, uint16_t len, uint8_t *z) {
  return toprf_Evaluate(k,blinded,(uint8_t)self,idx,len,z);
}
int sh_thcombine(size_t k, const uint8_t *parts, uint8_t *res) {
  return toprf_thresholdcombine(k,(const uint8_t (*)[TOPRF_Part_BYTES])parts,res);
}
int sh_3hash(const uint8_t *k, const uint8_t *z, const uint8_t *alpha, const uint8_t *ssid, uint16_t sl, uint8_t *beta) {
  return toprf_3hashtdh(k,z,alpha,ssid,sl,beta);
}
void sh_coeff(int index, size_t n, const uint8_t *peers, uint8_t *res) { coeff((uint8_t)index,n,peers,res); }
int sh_mul_start(const uint8_t *a, const uint8_t *b, int peers, int t, uint8_t *shares) {
  return toprf_mpc_mul_start(a,b,(uint8_t)peers,(uint8_t)t,(uint8_t (*)[TOPRF_Share_BYTES])shares);
}
void sh_mul_finish(int dealers, const uint8_t *idx, int peer, const uint8_t *shares, uint8_t *share) {
  toprf_mpc_mul_finish((uint8_t)dealers,idx,(uint8_t)peer,(const uint8_t (*)[TOPRF_Share_BYTES])shares,share);
}
int sh_dkg_start(int n, int t, uint8_t *commits, uint8_t *shares) {
  return dkg_start((uint8_t)n,(uint8_t)t,(uint8_t (*)[32])commits,(TOPRF_Share*)shares);
}
int sh_dkg_verify1(int n, int t, int self, int i, const uint8_t *commits, const uint8_t *share) {
  TOPRF_Share s; memcpy(&s,share,sizeof s);
  return dkg_verify_commitment((uint8_t)n,(uint8_t)t,(uint8_t)self,(uint8_t)i,(const uint8_t (*)[32])commits,s);
}
int sh_dkg_verify(int n, int t, int self, const uint8_t *commits, const uint8_t *shares, uint8_t *fails, uint8_t *nfails) {
  typedef const uint8_t (*cm)[t][32];
  return dkg_verify_commitments((uint8_t)n,(uint8_t)t,(uint8_t)self,(cm)commits,(const TOPRF_Share*)shares,fails,nfails);
}
void sh_dkg_finish(int n, const uint8_t *shares, int self, uint8_t *xi) {
  TOPRF_Share s; memset(&s,0x5a,sizeof s);
  dkg_finish((uint8_t)n,(const TOPRF_Share*)shares,(uint8_t)self,&s);
  memcpy(xi,s.value,32);
}
void sh_dkg_reconstruct(size_t k, const uint8_t *shares, uint8_t *res) { dkg_reconstruct(k,(const TOPRF_Share*)shares,res); }
