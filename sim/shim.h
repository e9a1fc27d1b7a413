/* Plain C access to the library's public API for the C++ simulator (the
 * headers use parameter forms that are not valid C++). */
#ifndef SHIM_H
#define SHIM_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { HDR=111, MSG0=177, SHARE=33, MSG8=256 };
void sh_log(int on);

/* coordinator */
typedef struct sh_tp sh_tp;
sh_tp *sh_tp_new(uint8_t fill);
int sh_tp_start(sh_tp *w, uint64_t eps, int n, int t, const char *name, size_t nlen, uint8_t msg0[MSG0]);
void sh_tp_bufs(sh_tp *w, int n, int t, const uint8_t *lt_pks, uint8_t fill, size_t cmax);
size_t sh_tp_in(sh_tp *w);
int sh_tp_ins(sh_tp *w, size_t *sizes);
size_t sh_tp_out(sh_tp *w);
int sh_tp_next(sh_tp *w, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen);
int sh_tp_msg(sh_tp *w, const uint8_t *base, size_t blen, int peer, const uint8_t **msg, size_t *len);
int sh_tp_not_done(sh_tp *w);
size_t sh_tp_cheaters(sh_tp *w);
size_t sh_tp_cheater_max(sh_tp *w);
int sh_tp_cheater(sh_tp *w, size_t i, char *out, size_t outlen, int raw[5]);
void sh_tp_free(sh_tp *w);

/* peer */
typedef struct sh_peer sh_peer;
sh_peer *sh_peer_new(uint8_t fill);
int sh_peer_start(sh_peer *w, uint64_t eps, const uint8_t lt_sk[64], const uint8_t *msg0, uint8_t fill);
size_t sh_peer_in(sh_peer *w);
size_t sh_peer_out(sh_peer *w);
int sh_peer_next(sh_peer *w, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen);
int sh_peer_not_done(sh_peer *w);
int sh_peer_n(sh_peer *w);
int sh_peer_t(sh_peer *w);
int sh_peer_index(sh_peer *w);
void sh_peer_share(sh_peer *w, uint8_t out[SHARE]);
void sh_peer_release(sh_peer *w);   /* the API's release call */
void sh_peer_free(sh_peer *w);      /* the harness's memory */

/* evaluation */
int sh_blind(const uint8_t *x, uint8_t xlen, uint8_t *r, uint8_t *blinded);
int sh_eval(const uint8_t *k, const uint8_t *blinded, uint8_t *z);
int sh_unblind(const uint8_t *r, const uint8_t *z, uint8_t *n);
int sh_finalize(const uint8_t *x, uint16_t xlen, const uint8_t *n, uint8_t *rwd);
void sh_keygen(uint8_t *k);
int sh_h2g(const uint8_t *m, uint8_t len, uint8_t *p);
void sh_create_shares(const uint8_t *secret, int n, int t, uint8_t *shares);
int sh_thmult(size_t k, const uint8_t *parts, uint8_t *res);
int sh_teval(const uint8_t *k, const uint8_t *blinded, int self, const uint8_t *idx, uint16_t len, uint8_t *z);
int sh_thcombine(size_t k, const uint8_t *parts, uint8_t *res);
int sh_3hash(const uint8_t *k, const uint8_t *z, const uint8_t *alpha, const uint8_t *ssid, uint16_t sl, uint8_t *beta);
void sh_coeff(int index, size_t n, const uint8_t *peers, uint8_t *res);

/* multiplication */
int sh_mul_start(const uint8_t *a, const uint8_t *b, int peers, int t, uint8_t *shares);
void sh_mul_finish(int dealers, const uint8_t *idx, int peer, const uint8_t *shares, uint8_t *share);

/* bare key generation */
int sh_dkg_start(int n, int t, uint8_t *commits, uint8_t *shares);
int sh_dkg_verify1(int n, int t, int self, int i, const uint8_t *commits, const uint8_t *share);
int sh_dkg_verify(int n, int t, int self, const uint8_t *commits, const uint8_t *shares, uint8_t *fails, uint8_t *nfails);
void sh_dkg_finish(int n, const uint8_t *shares, int self, uint8_t *xi);
void sh_dkg_reconstruct(size_t k, const uint8_t *shares, uint8_t *res);
#ifdef __cplusplus
}
#endif
#endif
