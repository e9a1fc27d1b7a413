/* Plain C access to the channel API for the C++ simulator. */
#ifndef SHIM_NOISE_H
#define SHIM_NOISE_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { NZ_OK=0, NZ_ERROR=1, NZ_STUCK=2, NZ_LEVEL=3 };
void *nz_dev(const uint8_t *prlg, size_t plen, const char *name, const uint8_t *sk, const uint8_t *priv);
void *nz_dev_load(const uint8_t *prlg, size_t plen, const char *name, const uint8_t *sk, const uint8_t *blob);
void nz_dev_free(void *d);
size_t nz_dev_store(void *d, uint8_t *out, size_t max);
void nz_dev_keys(void *d, uint8_t *priv, uint8_t *pub);
size_t nz_dev_name(void *d, char *out, size_t max);
uint32_t nz_add(void *d, const char *name, const uint8_t *pk);     /* 0: refused */
void nz_remove(void *d, uint32_t pid);
int nz_by_id(void *d, uint32_t pid, uint8_t *pk, char *name, size_t max, uint32_t *got);
int nz_by_static(void *d, const uint8_t *pk, uint8_t *pkout, char *name, size_t max, uint32_t *got);
size_t nz_peer_store(void *d, uint32_t pid, uint8_t *out, size_t max);
uint32_t nz_peer_load(void *d, const char *name, const uint8_t *blob, size_t len);
void *nz_ini(void *d, uint32_t pid);
void *nz_resp(void *d);
void nz_sfree(void *s);
int nz_write(void *s, int conf, const uint8_t *m, size_t len, uint8_t **out, size_t *outlen);
int nz_read(void *s, int auth, const uint8_t *in, size_t len, uint8_t **out, size_t *outlen);
int nz_status(void *s);
void nz_hash(void *s, uint8_t *h);
uint32_t nz_peer_id(void *s);
int nz_peer_name(void *s, char *out, size_t max);
uint32_t nz_sid(void *s);
int nz_sname(void *s, char *out, size_t max);
int nz_max(void *s);
uint32_t nz_count(void *d, int sessions);
int nz_read2(void *s, int how, const uint8_t *in, size_t len, uint8_t **out, size_t *outlen, int *level); /* how 0: as is, 1: highest authentication only */
int nz_next_len(void *s, size_t payload, size_t *out);
#ifdef __cplusplus
}
#endif
#endif
