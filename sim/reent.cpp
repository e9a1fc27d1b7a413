// Operations interrupted by one another: every operation runs as a coroutine
// that can be preempted at each call from the library into libsodium.
#include "core.h"
#include "shim_noise.h"
#include <memory>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sanitizer/common_interface_defs.h>
namespace {
enum { K_BLIND, K_EVAL, K_UNBLIND, K_FINAL, K_SHARES, K_THMULT, K_TEVAL, K_COMBINE, K_MASKED, K_MUL, K_DKG, K_SESSION, K_CHANNEL, K_STORE, K_COEFF, K_N };
const char*kname[]={"blinding","evaluation","unblinding","finalising","sharing","threshold evaluation","announced evaluation","combining","masked evaluation","multiplication","bare key generation","coordinated key generation","channel","stored identity","weights"};

void put(Bytes&o,const Bytes&b) { o.insert(o.end(),b.begin(),b.end()); }
void put(Bytes&o,const A32&b) { o.insert(o.end(),b.begin(),b.end()); }
void puti(Bytes&o,i64 v) { for(int i=0;i<8;i++) o.push_back((u8)(v>>(8*i))); }

// a whole key generation session in lock-step
void session(Rng&r,Bytes&o) {
  int n=(int)r.range(3,4),t=(int)r.range(2,n-1); Bytes pk(32*n); vector<std::array<u8,64>> sk(n); for(int i=0;i<n;i++) { u8 s[32]; r.fill(s,32); crypto_sign_seed_keypair(pk.data()+32*i,sk[i].data(),s); }
  sh_tp*tp=sh_tp_new(0xa5); u8 m0[MSG0]; int ret=sh_tp_start(tp,300,n,t,"reent",5,m0); puti(o,ret); if(ret) { sh_tp_free(tp); return; } put(o,Bytes(m0,m0+MSG0));
  sh_tp_bufs(tp,n,t,pk.data(),0xa5,0); vector<sh_peer*> p; vector<Bytes> up(n); vector<int> st(n,0); for(int i=0;i<n;i++) { p.push_back(sh_peer_new(0xa5)); st[i]=sh_peer_start(p[i],300,sk[i].data(),m0,0xa5); puti(o,st[i]); }
  for(int k=0;k<60&&sh_tp_not_done(tp);k++) {
    vector<size_t> sz(n); sh_tp_ins(tp,sz.data()); Bytes in; for(int i=0;i<n;i++) { Bytes b(up[i].begin(),up[i].begin()+std::min(up[i].size(),sz[i])); b.resize(sz[i]); put(in,b); up[i].clear(); }
    Bytes out(sh_tp_out(tp)); int rc=sh_tp_next(tp,in.data(),in.size(),out.data(),out.size()); puti(o,rc); put(o,out); if(rc) break;
    for(int i=0;i<n;i++) { const u8*m=NULL; size_t l=0; if(sh_tp_msg(tp,out.data(),out.size(),i,&m,&l)) continue; Bytes msg(m,m+l); bool used=false;
      while(!st[i]&&sh_peer_not_done(p[i])) { size_t need=sh_peer_in(p[i]); if(need&&(used||need!=msg.size())) break; Bytes po(sh_peer_out(p[i])); st[i]=sh_peer_next(p[i],need?msg.data():NULL,need,po.data(),po.size()); if(need) used=true; puti(o,st[i]); put(o,po); if(!po.empty()&&!st[i]) up[i]=po; } }
  }
  for(int i=0;i<n;i++) { u8 s[SHARE]; sh_peer_share(p[i],s); put(o,Bytes(s,s+SHARE)); puti(o,sh_peer_not_done(p[i])); sh_peer_release(p[i]); sh_peer_free(p[i]); }
  puti(o,sh_tp_not_done(tp)); sh_tp_free(tp);
}
void channel(Rng&r,Bytes&o) {
  A32 ka,kb,sk,pa,pb; r.fill(ka.data(),32); r.fill(kb.data(),32); r.fill(sk.data(),32); crypto_scalarmult_base(pa.data(),ka.data()); crypto_scalarmult_base(pb.data(),kb.data());
  void*a=nz_dev(NULL,0,"a",sk.data(),ka.data()),*b=nz_dev(NULL,0,"b",sk.data(),kb.data()); u32 pid=nz_add(a,"b",pb.data()); nz_add(b,"a",pa.data()); void*x=nz_ini(a,pid),*y=nz_resp(b);
  for(int k=0;k<6;k++) { void*f=k%2?y:x,*g=k%2?x:y; Bytes m(r.below(60)); r.fill(m.data(),m.size()); u8*w=NULL,*q=NULL; size_t l=0,ql=0; puti(o,nz_write(f,0,m.data(),m.size(),&w,&l)); if(!w) break; put(o,Bytes(w,w+l)); puti(o,nz_read(g,0,w,l,&q,&ql)); put(o,Bytes(q,q+ql)); puti(o,m.size()==ql&&(ql==0||memcmp(m.data(),q,ql)==0)); free(w); if(q) free(q); }
  u8 h[64]; nz_hash(x,h); put(o,Bytes(h,h+64)); nz_sfree(x); nz_sfree(y); nz_dev_free(a); nz_dev_free(b);
}
void store(Rng&r,Bytes&o) {
  A32 k,sk,pk; r.fill(k.data(),32); r.fill(sk.data(),32); r.fill(pk.data(),32); string nm(1+r.below(30),'x'); void*d=nz_dev(NULL,0,nm.c_str(),sk.data(),k.data()); u32 pid=nz_add(d,"p",pk.data()); Bytes b(128),c(128); b.resize(nz_dev_store(d,b.data(),128)); c.resize(nz_peer_store(d,pid,c.data(),128)); put(o,b); put(o,c); nz_dev_free(d);
  d=nz_dev_load(NULL,0,nm.c_str(),sk.data(),b.data()); puti(o,d!=NULL); if(!d) return; A32 a,q; nz_dev_keys(d,a.data(),q.data()); put(o,a); put(o,q); puti(o,nz_peer_load(d,"p",c.data(),c.size())); nz_dev_free(d);
}
Bytes operation(int kind,u64 seed) {
  Rng r(seed); Bytes o; int t=(int)r.range(2,5),n=t+(int)r.below(4); Bytes x(r.below(100)); r.fill(x.data(),x.size()); A32 K=ref::rnd(r),q,z; Bytes sh(33*n,0x11);
  switch(kind) {
    case K_BLIND: { A32 f,b; puti(o,sh_blind(x.data(),(u8)x.size(),f.data(),b.data())); put(o,f); put(o,b); break; }
    case K_EVAL: { A32 e; ref::base(e,ref::rnd(r)); puti(o,sh_eval(K.data(),e.data(),q.data())); put(o,q); break; }
    case K_UNBLIND: { A32 e; ref::base(e,ref::rnd(r)); puti(o,sh_unblind(K.data(),e.data(),q.data())); put(o,q); break; }
    case K_FINAL: { A32 e; ref::base(e,ref::rnd(r)); Bytes w(64); puti(o,sh_finalize(x.data(),(u16)x.size(),e.data(),w.data())); put(o,w); puti(o,sh_h2g(x.data(),(u8)x.size(),q.data())); put(o,q); sh_keygen(z.data()); put(o,z); break; }
    case K_SHARES: sh_create_shares(K.data(),n,t,sh.data()); put(o,sh); break;
    case K_THMULT: { sh_create_shares(K.data(),n,t,sh.data()); A32 e; ref::base(e,ref::rnd(r)); Bytes parts; for(int i=0;i<t;i++) { Bytes p(33); p[0]=sh[33*i]; puti(o,sh_eval(sh.data()+33*i+1,e.data(),p.data()+1)); put(parts,p); } puti(o,sh_thmult(t,parts.data(),q.data())); put(o,q); break; }
    case K_TEVAL: case K_COMBINE: { sh_create_shares(K.data(),n,t,sh.data()); A32 e; ref::base(e,ref::rnd(r)); Bytes ix,parts; for(int i=0;i<t;i++) ix.push_back((u8)(i+1)); for(int i=0;i<t;i++) { Bytes p(33); puti(o,sh_teval(sh.data()+33*i,e.data(),i+1,ix.data(),(u16)t,p.data())); p[0]=(u8)(i+1); put(parts,p); } put(o,parts); puti(o,sh_thcombine(t,parts.data(),q.data())); put(o,q); break; }
    case K_MASKED: { sh_create_shares(K.data(),n,t,sh.data()); Bytes zs(33*n); A32 zero=ref::sc(0); sh_create_shares(zero.data(),n,t,zs.data()); A32 e; ref::base(e,ref::rnd(r)); Bytes parts; for(int i=0;i<t;i++) { Bytes p(33); puti(o,sh_3hash(sh.data()+33*i,zs.data()+33*i,e.data(),x.data(),(u16)x.size(),p.data())); put(parts,p); } put(o,parts); puti(o,sh_thmult(t,parts.data(),q.data())); put(o,q); break; }
    case K_MUL: { int m=2*t-1; Bytes a(33*m),b(33*m); A32 L=ref::rnd(r); sh_create_shares(K.data(),m,t,a.data()); sh_create_shares(L.data(),m,t,b.data()); vector<Bytes> d; for(int i=0;i<m;i++) { Bytes s(33*m); puti(o,sh_mul_start(a.data()+33*i,b.data()+33*i,m,t,s.data())); d.push_back(s); put(o,s); }
      Bytes ix; for(int i=0;i<m;i++) ix.push_back((u8)(i+1)); for(int j=0;j<m;j++) { Bytes in; for(int i=0;i<m;i++) put(in,Bytes(d[i].begin()+33*j,d[i].begin()+33*j+33)); Bytes s(33,0); sh_mul_finish(m,ix.data(),j+1,in.data(),s.data()); put(o,s); } break; }
    case K_DKG: { vector<Bytes> c,s; for(int i=0;i<n;i++) { c.push_back(Bytes(32*t)); s.push_back(Bytes(33*n)); puti(o,sh_dkg_start(n,t,c[i].data(),s[i].data())); put(o,c[i]); put(o,s[i]); }
      for(int j=1;j<=n;j++) { Bytes in,all; for(int i=0;i<n;i++) { put(in,Bytes(s[i].begin()+33*(j-1),s[i].begin()+33*j)); put(all,c[i]); } if(j==1) in[40]^=1; Bytes f(n,0); u8 nf=0; puti(o,sh_dkg_verify(n,t,j,all.data(),in.data(),f.data(),&nf)); puti(o,nf); put(o,f); A32 xi; sh_dkg_finish(n,in.data(),j,xi.data()); put(o,xi); sh[33*(j-1)]=(u8)j; memcpy(sh.data()+33*(j-1)+1,xi.data(),32); }
      sh_dkg_reconstruct(t,sh.data()+33*(n-t),q.data()); put(o,q); break; }
    case K_SESSION: session(r,o); break;
    case K_CHANNEL: channel(r,o); break;
    case K_STORE: store(r,o); break;
    case K_COEFF: { Bytes ix; for(int i=0;i<t+3;i++) ix.push_back((u8)(i*3+1)); for(int i=0;i<t+3;i++) { sh_coeff(ix[i],ix.size(),ix.data(),q.data()); put(o,q); } break; }
  }
  return o;
}

struct Fiber { ucontext_t uc; u8*stk=NULL; void*fake=NULL; seam_ctx c; int kind; u64 seed; Bytes out; bool done=false; u64 yields=0; };
const size_t STK=8u<<20;
struct Sched { const Plan*p=NULL; Result*R=NULL; vector<std::unique_ptr<Fiber>> f; ucontext_t main; void*mfake=NULL; const void*mstk=NULL; size_t mlen=0; int cur=-1; u64 quantum=0,run=0; vector<u64> solo; Rng pick; u64 switches=0; };
Sched*G; u64 solo_yields;
void yield_solo() { solo_yields++; }
void entry() { Sched&S=*G; __sanitizer_finish_switch_fiber(NULL,&S.mstk,&S.mlen); Fiber&F=*S.f[S.cur]; F.out=operation(F.kind,F.seed); F.done=true; __sanitizer_start_switch_fiber(NULL,S.mstk,S.mlen); swapcontext(&F.uc,&S.main); }
void yield_fiber() { // decide whether the running operation is preempted here
  Sched&S=*G; if(S.cur<0) return; Fiber&F=*S.f[S.cur]; u64 k=F.yields++; bool sw=false; int to=-1;
  if(S.quantum&&++S.run>=S.quantum) { sw=true; }
  for(auto &x:S.p->f) if(x.kind=="preempt"&&x.get("op")%(i64)S.f.size()==S.cur&&S.solo[S.cur]&&(u64)x.get("at")%S.solo[S.cur]==k) { sw=true; to=(int)(x.get("to")%(i64)S.f.size()); S.R->fire("preempt"); }
  if(!sw) return; S.run=0; if(to>=0) S.cur=to==S.cur?(to+1)%(int)S.f.size():to; else S.cur=-2;
  S.switches++; seam_ctx*keep=seam_cur; (void)keep;
  __sanitizer_start_switch_fiber(&F.fake,S.mstk,S.mlen); swapcontext(&F.uc,&S.main); __sanitizer_finish_switch_fiber(F.fake,&S.mstk,&S.mlen);
}
Plan gen_t08(Rng&r,const string&id,u64 seed,u64 index,bool th) {
  Plan p; int k=(int)r.range(2,4); p.p["ops"]=k; int same=r.chance(1,2)?(int)r.below(K_N):-1; if(same==K_SESSION&&r.chance(2,3)) same=(int)r.below(K_SESSION);
  for(int i=0;i<k;i++) { p.p[fmt("k%d",i)]=same>=0?same:(i64)r.below(K_N); p.p[fmt("s%d",i)]=(i64)(r.next()>>2); }
  p.p["pick"]=(i64)(r.next()>>2); p.p["quantum"]=r.chance(1,3)?r.pick(vector<i64>{1,1,2,3,5,17}):0;
  int c=p.get("quantum")?(int)r.below(3):(int)r.range(1,12); for(int i=0;i<c;i++) p.add("preempt",{{"op",(i64)r.below(k)},{"at",(i64)r.below(1000000)},{"to",(i64)r.below(k)}});
  return p;
}
void exec_t08(const Plan&p,Result&R) {
  int k=(int)p.get("ops",2); Sched S; G=&S; S.p=&p; S.R=&R; S.quantum=(u64)p.get("quantum",0); S.pick=Rng((u64)p.get("pick",1)); vector<Bytes> alone;
  for(int i=0;i<k;i++) { S.f.emplace_back(new Fiber()); Fiber&F=*S.f[i]; F.kind=(int)(p.get(fmt("k%d",i).c_str())%K_N); F.seed=(u64)p.get(fmt("s%d",i).c_str(),i+1); memset(&F.c,0,sizeof F.c); F.c.clock_ms=1700000000000LL; F.c.fill=0xa5; seam_seed(&F.c,F.seed); }
  for(int i=0;i<k;i++) { Fiber&F=*S.f[i]; seam_ctx c=F.c; seam_cur=&c; solo_yields=0; seam_yield_fn=yield_solo; alone.push_back(operation(F.kind,F.seed)); seam_yield_fn=NULL; seam_cur=NULL; S.solo.push_back(solo_yields); R.h(hashb(alone.back())); }
  for(int i=0;i<k;i++) { Fiber&F=*S.f[i]; F.stk=(u8*)mmap(NULL,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(F.stk==MAP_FAILED) { fprintf(stderr,"mmap\n"); _exit(3); } getcontext(&F.uc); F.uc.uc_stack.ss_sp=F.stk; F.uc.uc_stack.ss_size=STK; F.uc.uc_link=NULL; makecontext(&F.uc,entry,0); }
  vector<bool> begun(k,false); int next=(int)S.pick.below(k); u64 slices=0;
  for(;;) {
    bool any=false; for(auto &f:S.f) if(!f->done) any=true; if(!any) break;
    if(next<0) next=(int)S.pick.below(k);
    for(int j=0;S.f[next]->done&&j<k;j++) next=(next+1)%k;
    S.cur=next; Fiber&F=*S.f[next]; seam_cur=&F.c; seam_yield_fn=yield_fiber; S.run=0; R.act(hash2(next,F.yields)); slices++;
    int running=next; __sanitizer_start_switch_fiber(&S.mfake,F.stk,STK); swapcontext(&S.main,&F.uc); __sanitizer_finish_switch_fiber(S.mfake,NULL,NULL);
    seam_yield_fn=NULL; seam_cur=NULL; (void)running; next=F.done?-1:S.cur; if(next==-2) next=-1;
  }
  for(int i=0;i<k;i++) { Fiber&F=*S.f[i]; R.h(hashb(F.out)); R.states.push_back(hash2(hash2(F.kind,i),hashb(F.out))); if(F.out!=alone[i]) { size_t d=0; while(d<F.out.size()&&d<alone[i].size()&&F.out[d]==alone[i][d]) d++; R.viol("T08.result",fmt("%s gives another result when interrupted (output differs from byte %zu of %zu)",kname[F.kind],d,alone[i].size())); } if(F.c.locked) R.viol("T08.locked",fmt("%s leaves memory locked",kname[F.kind])); munmap(F.stk,STK); }
  R.hit("switches",S.switches); R.hit("slices",slices); for(u64 y:S.solo) R.hit("preemption_points",y); R.nontrivial=S.switches>0; R.sim_ms=1; G=NULL;
}
} // namespace
CheckDef reent_checks[]={{"T08",gen_t08,exec_t08},{NULL,NULL,NULL}};
