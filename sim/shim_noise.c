#include "shim_noise.h"
#include <string.h>
#include <stdlib.h>
#include "XK.h"
#define D ((Noise_XK_device_t*)d)
#define S ((Noise_XK_session_t*)s)
#define U(x) ((uint8_t*)(x))

static size_t str(uint8_t *v, char *out, size_t max) {
  size_t l=0;
  out[0]=0;
  if(v) { l=strlen((char*)v); if(l>=max) l=max-1; memcpy(out,v,l); out[l]=0; free(v); }
  return l;
}
void *nz_dev(const uint8_t *prlg, size_t plen, const char *name, const uint8_t *sk, const uint8_t *priv) { return Noise_XK_device_create((uint32_t)plen,U(prlg),U(name),U(sk),U(priv)); }
void *nz_dev_load(const uint8_t *prlg, size_t plen, const char *name, const uint8_t *sk, const uint8_t *blob) { return Noise_XK_device_create_from_secret((uint32_t)plen,U(prlg),U(name),U(sk),U(blob)); }
void nz_dev_free(void *d) { Noise_XK_device_free(D); }
size_t nz_dev_store(void *d, uint8_t *out, size_t max) {
  uint32_t l=0; uint8_t *o=NULL;
  Noise_XK_serialize_device_secret(&l,&o,D);
  size_t n=l<max?l:max; if(o) { memcpy(out,o,n); free(o); } else n=0;
  return n;
}
void nz_dev_keys(void *d, uint8_t *priv, uint8_t *pub) { Noise_XK_device_get_static_priv(priv,D); Noise_XK_device_get_static_pub(pub,D); }
size_t nz_dev_name(void *d, char *out, size_t max) { Noise_XK_noise_string v=NULL; Noise_XK_device_get_info(&v,D); return str(v,out,max); }
uint32_t nz_add(void *d, const char *name, const uint8_t *pk) { Noise_XK_peer_t *p=Noise_XK_device_add_peer(D,U(name),U(pk)); return p?Noise_XK_peer_get_id(p):0; }
void nz_remove(void *d, uint32_t pid) { Noise_XK_device_remove_peer(D,pid); }
static int peer(Noise_XK_peer_t *p, uint8_t *pk, char *name, size_t max, uint32_t *got) {
  if(!p) return 0;
  Noise_XK_noise_string v=NULL;
  *got=Noise_XK_peer_get_id(p); Noise_XK_peer_get_static(pk,p); Noise_XK_peer_get_info(&v,p); str(v,name,max);
  return 1;
}
int nz_by_id(void *d, uint32_t pid, uint8_t *pk, char *name, size_t max, uint32_t *got) { return peer(Noise_XK_device_lookup_peer_by_id(D,pid),pk,name,max,got); }
int nz_by_static(void *d, const uint8_t *k, uint8_t *pk, char *name, size_t max, uint32_t *got) { return peer(Noise_XK_device_lookup_peer_by_static(D,U(k)),pk,name,max,got); }
size_t nz_peer_store(void *d, uint32_t pid, uint8_t *out, size_t max) {
  uint32_t l=0; uint8_t *o=NULL;
  Noise_XK_serialize_peer_secret(&l,&o,D,Noise_XK_device_lookup_peer_by_id(D,pid));
  size_t n=l<max?l:max; if(o) { memcpy(out,o,n); free(o); } else n=0;
  return n;
}
uint32_t nz_peer_load(void *d, const char *name, const uint8_t *blob, size_t len) { Noise_XK_peer_t *p=Noise_XK_deserialize_peer_secret(D,U(name),(uint32_t)len,U(blob)); return p?Noise_XK_peer_get_id(p):0; }
void *nz_ini(void *d, uint32_t pid) { return Noise_XK_session_create_initiator(D,pid); }
void *nz_resp(void *d) { return Noise_XK_session_create_responder(D); }
void nz_sfree(void *s) { Noise_XK_session_free(S); }
static int rcode(Noise_XK_rcode r) { return Noise_XK_rcode_is_success(r)?NZ_OK:Noise_XK_rcode_is_stuck(r)?NZ_STUCK:NZ_ERROR; }
int nz_write(void *s, int conf, const uint8_t *m, size_t len, uint8_t **out, size_t *outlen) {
  Noise_XK_encap_message_t *e=conf==NOISE_XK_MAX_CONF_LEVEL&&(len&1)?Noise_XK_pack_message((uint32_t)len,U(m)):Noise_XK_pack_message_with_conf_level((uint8_t)conf,(uint32_t)len,U(m));
  uint32_t l=0; *out=NULL; *outlen=0;
  int r=rcode(Noise_XK_session_write(e,S,&l,out));
  Noise_XK_encap_message_p_free(e);
  *outlen=l;
  return r;
}
int nz_read(void *s, int auth, const uint8_t *in, size_t len, uint8_t **out, size_t *outlen) {
  Noise_XK_encap_message_t *e=NULL; uint32_t l=0;
  *out=NULL; *outlen=0;
  int r=rcode(Noise_XK_session_read(&e,S,(uint32_t)len,U(in)));
  if(r!=NZ_OK) { if(e) abort(); return r; }
  if(!Noise_XK_unpack_message_with_auth_level(&l,out,(uint8_t)auth,e)) r=NZ_LEVEL; else *outlen=l;
  Noise_XK_encap_message_p_free(e);
  return r;
}
int nz_status(void *s) { return Noise_XK_session_get_status(S); }
void nz_hash(void *s, uint8_t *h) { Noise_XK_session_get_hash(h,S); }
uint32_t nz_peer_id(void *s) { return Noise_XK_session_get_peer_id(S); }
int nz_peer_name(void *s, char *out, size_t max) { Noise_XK_noise_string v=NULL; int ok=Noise_XK_session_get_peer_info(&v,S); str(v,out,max); return ok; }
int nz_next_len(void *s, size_t payload, size_t *out) { uint32_t l=0; if(!Noise_XK_session_compute_next_message_len(&l,S,(uint32_t)payload)) return 0; *out=l; return 1; }
uint32_t nz_sid(void *s) { return Noise_XK_session_get_id(S); }
int nz_sname(void *s, char *out, size_t max) { Noise_XK_noise_string v=NULL; Noise_XK_session_get_info(&v,S); str(v,out,max); return 1; }
int nz_max(void *s) { return Noise_XK_session_reached_max_security(S); }
uint32_t nz_count(void *d, int sessions) { return sessions?Noise_XK_device_get_sessions_counter(D):Noise_XK_device_get_peers_counter(D); }
int nz_read2(void *s, int how, const uint8_t *in, size_t len, uint8_t **out, size_t *outlen, int *level) {
  Noise_XK_encap_message_t *e=NULL; uint32_t l=0;
  *out=NULL; *outlen=0; *level=-1;
  int r=rcode(Noise_XK_session_read(&e,S,(uint32_t)len,U(in)));
  if(r!=NZ_OK) { if(e) abort(); return r; }
  if(how==0) {
    Noise_XK_ac_level_t a;
    Noise_XK_unsafe_unpack_message(&a,&l,out,e);
    *outlen=l; *level=a.tag==Noise_XK_Auth_level?a.val.case_Auth_level:a.tag==Noise_XK_No_level?100:200;
  } else if(!Noise_XK_unpack_message(&l,out,e)) r=NZ_LEVEL; else *outlen=l;
  Noise_XK_encap_message_p_free(e);
  return r;
}
