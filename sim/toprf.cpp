// Threshold evaluation: clients, servers holding shares, an unreliable network,
// crashes and restarts, key updates; sharing, multiplication and bare key
// generation among several parties; failing memory locks.
#include "core.h"
#include <memory>

static bool is_zero(const u8*p) { for(int i=0;i<32;i++) if(p[i]) return false; return true; }
static bool good_point(const u8*p) { return !is_zero(p) && !(p[31]&0x80) && crypto_core_ristretto255_is_valid_point(p)==1; }

// reference evaluation with one undivided key, written against libsodium only
static A32 ref_h2g(const Bytes&x) {
  const char dst[]="HashToGroup-OPRFV1-\x00-ristretto255-SHA512"; size_t dl=sizeof dst-1;
  Bytes m(128,0); m.insert(m.end(),x.begin(),x.end()); m.push_back(0); m.push_back(64); m.push_back(0); m.insert(m.end(),dst,dst+dl); m.push_back((u8)dl);
  u8 b0[64],b1[64]; crypto_hash_sha512(b0,m.data(),m.size());
  Bytes q(b0,b0+64); q.push_back(1); q.insert(q.end(),dst,dst+dl); q.push_back((u8)dl);
  crypto_hash_sha512(b1,q.data(),q.size());
  A32 o; crypto_core_ristretto255_from_hash(o.data(),b1); return o;
}
static Bytes ref_final(const Bytes&x,const A32&n) {
  Bytes m; m.push_back((u8)(x.size()>>8)); m.push_back((u8)x.size()); m.insert(m.end(),x.begin(),x.end()); m.push_back(0); m.push_back(32); m.insert(m.end(),n.begin(),n.end());
  const char d[]="Finalize"; m.insert(m.end(),d,d+8); Bytes o(64); crypto_hash_sha512(o.data(),m.data(),m.size()); return o;
}
static Bytes ref_out(const A32&k,const Bytes&x) { A32 h=ref_h2g(x),n; ref::smul(n,k,h.data()); return ref_final(x,n); }

struct Ctx { seam_ctx c; Ctx(u64 seed) { memset(&c,0,sizeof c); c.clock_ms=1700000000000LL; seam_seed(&c,seed); c.fill=0xa5; } };
struct Use { seam_ctx*old; Use(Ctx&x) { old=seam_cur; seam_cur=&x.c; } ~Use() { seam_cur=old; } };

static vector<int> subset(Rng&r,int n,int k) { vector<int> v; for(int i=1;i<=n;i++) v.push_back(i); r.shuffle(v); v.resize(k); return v; }
static A32 sval(const Bytes&s) { A32 v; memcpy(v.data(),s.data()+1,32); return v; }
static Bytes mkshare(int i,const A32&v) { Bytes b(33); b[0]=(u8)i; memcpy(b.data()+1,v.data(),32); return b; }
static string list(const vector<int>&v) { string s; for(size_t i=0;i<v.size()&&i<20;i++) s+=fmt("%s%d",i?",":"",v[i]); if(v.size()>20) s+=",..."; return s; }
static void gen_nt(Plan&p,Rng&r,bool th,bool t1) {
  int n; u64 k=r.below(100);
  if(k<60) n=(int)r.range(2,7); else if(k<92) n=(int)r.range(5,16); else if(k<98) n=(int)r.range(17,th?120:60); else n=r.chance(1,2)?255:(int)r.range(120,254);
  int t=(int)r.range(t1&&r.chance(1,12)?1:2,n>40?std::min(n,12):n); if(t>n) t=n;
  p.p["n"]=n; p.p["t"]=t;
}
// splitting checks common to everything that deals shares
static bool dealing_ok(const Bytes&sh,int n,int t,const A32&secret) {
  vector<int> idx; vector<A32> val; idx.push_back(0); val.push_back(secret);
  for(int i=1;i<=n;i++) { if(sh[33*(i-1)]!=i) return false; A32 v; memcpy(v.data(),sh.data()+33*(i-1)+1,32); idx.push_back(i); val.push_back(v); }
  return n>60||ref::on_poly(idx,val,t);
}

// ---------------------------------------------------------------- the service
enum { M_CLIENT=0, M_SERVER=1, M_MASKED=2 };
struct Answer { int srv; int epoch; u64 req; Bytes part; };
struct Req { u64 id; int client, mode; Bytes x; A32 r, blinded; Bytes ssid; vector<int> quorum; int attempt=0; bool done=false; int q=0;
  vector<Answer> got; vector<Answer> all; i64 t0=0; };
struct Srv { int idx; Bytes disk, mem, zdisk, z; int epoch=0; bool up=true; std::unique_ptr<Ctx> cx; };

struct Service {
  const Plan&p; Result&R; Rng lat; int n,t; string id;
  vector<A32> keys; vector<Srv> srv; vector<Req> reqs; vector<std::unique_ptr<Ctx>> cl;
  i64 now=0; u64 seq=0,msgs=0; std::multimap<std::pair<i64,u64>,std::function<void()>> q;
  Rng pick; map<int,map<int,Bytes>> stolen; // epoch -> server -> stored share
  Service(const Plan&P,Result&r):p(P),R(r),lat((u64)P.get("lat",1)),pick((u64)P.get("pick",7)) { n=(int)p.get("n",3); t=(int)p.get("t",2); id=p.check; }
  void at(i64 d,std::function<void()> f) { q.insert({{now+std::max<i64>(d,0),seq++},f}); }
  i64 latency() { i64 m=p.get("maxlat",50); return 1+(i64)lat.below((u64)m); }
  bool cut(int s) { for(auto &f:p.f) if(f.kind=="net.partition"&&(f.get("srv")-1)%n+1==s&&now>=f.get("from")&&now<f.get("to")) { R.fire(f.kind); return true; } return false; }
  void send(int s,std::function<void(Bytes)> f,Bytes payload) {
    u64 k=msgs++; i64 d=latency(); bool dup=false; i64 dd=0;
    for(auto &x:p.f) if((u64)x.get("msg",-1)==k) {
      if(x.kind=="net.drop") { R.fire(x.kind); return; }
      if(x.kind=="net.delay") { R.fire(x.kind); d+=x.get("ms"); }
      if(x.kind=="net.dup") { R.fire(x.kind); dup=true; dd=x.get("ms"); }
    }
    if(cut(s)) return;
    at(d,[=]{ f(payload); }); if(dup) at(d+dd,[=]{ f(payload); });
  }
  void deal() {
    A32 k; { Rng r((u64)p.get("key",3)); k=ref::rnd(r); if(p.get("key")==0) k=ref::sc(1); }
    keys.push_back(k); srv.resize(n);
    Ctx d((u64)p.get("libseed",5)); Use u(d);
    Bytes sh(33*n,0x77), zs(33*n,0x77);
    if(p.get("dkg")) { // the servers generate the key themselves
      vector<Bytes> cm(n),s(n); A32 sum=ref::sc(0);
      for(int i=0;i<n;i++) { cm[i]=Bytes(32*t); s[i]=Bytes(33*n); if(sh_dkg_start(n,t,cm[i].data(),s[i].data())) { R.viol(id+".deal","key generation failed"); return; } }
      for(int j=1;j<=n;j++) { Bytes in,call; for(int i=0;i<n;i++) { in.insert(in.end(),s[i].begin()+33*(j-1),s[i].begin()+33*j); call.insert(call.end(),cm[i].begin(),cm[i].end()); }
        Bytes fl(n); u8 nf=0; sh_dkg_verify(n,t,j,call.data(),in.data(),fl.data(),&nf); if(nf) R.viol(id+".deal","honest dealing rejected");
        A32 xi; sh_dkg_finish(n,in.data(),j,xi.data()); Bytes m=mkshare(j,xi); memcpy(sh.data()+33*(j-1),m.data(),33); }
      vector<int> ix; vector<A32> v; for(int i=1;i<=t;i++) { ix.push_back(i); A32 w; memcpy(w.data(),sh.data()+33*(i-1)+1,32); v.push_back(w); }
      keys[0]=ref::interp0(ix,v);
    } else sh_create_shares(k.data(),n,t,sh.data());
    if(!dealing_ok(sh,n,t,keys[0])) R.viol(id+".deal",fmt("shares of %d servers, threshold %d, are not a sharing of the key",n,t));
    bool masked=false; for(auto &e:p.p) if(e.first.compare(0,4,"mode")==0&&e.second==M_MASKED) masked=true;
    if(masked) { A32 z=ref::sc(0); sh_create_shares(z.data(),n,t,zs.data()); }
    for(int i=0;i<n;i++) { Srv&s=srv[i]; s.idx=i+1; s.disk=s.mem=Bytes(sh.begin()+33*i,sh.begin()+33*i+33); s.zdisk=s.z=Bytes(zs.begin()+33*i,zs.begin()+33*i+33); s.cx.reset(new Ctx(hash2((u64)p.get("libseed",5),100+i))); }
    R.h(hashb(sh)); R.h(hashb(zs));
  }
  void start(int c,int j) {
    Req r; r.id=reqs.size(); r.client=c; r.mode=(int)p.get(fmt("mode%d",c).c_str(),p.get("mode",0)); 
    Rng xr(hash2((u64)p.get("input",9),p.get("sameinput")?0:c*16+j)); r.x=Bytes(xr.below(4)==0?xr.below(256):xr.below(24)); xr.fill(r.x.data(),r.x.size());
    r.ssid=Bytes(1+xr.below(xr.below(20)==0?65535:40)); xr.fill(r.ssid.data(),r.ssid.size()); r.ssid[0]=(u8)r.id;
    Use u(*cl[c]); int ret=sh_blind(r.x.data(),(u8)r.x.size(),r.r.data(),r.blinded.data());
    A32 want; A32 h=ref_h2g(r.x); if(ret||!ref::smul(want,r.r,h.data())||want!=r.blinded) R.viol(id+".blind","blinding does not hide the hashed input with the returned factor");
    r.q=std::min(n,t+(int)p.get("extra",0)); r.t0=now;
    reqs.push_back(r); R.h(hashb(r.blinded.data(),32)); R.act(hash2(1,c));
    ask(r.id);
  }
  void ask(u64 id_) {
    Req&r=reqs[id_]; r.attempt++; 
    if(r.mode==M_SERVER) { if(r.attempt%3==1) { r.quorum=subset(pick,n,r.q); r.got.clear(); } }
    else if(r.quorum.empty()) { r.quorum=subset(pick,n,n); }
    Bytes b(r.blinded.begin(),r.blinded.end()); vector<int> ann=r.quorum; int gen=(r.attempt-1)/3;
    for(int s:r.quorum) { bool have=false; for(auto &a:r.got) if(a.srv==s) have=true; if(have) continue;
      send(s,[=](Bytes m){ serve(s,id_,ann,gen,m); },b); }
    at(p.get("timeout",400),[=]{ Req&r=reqs[id_]; if(r.done) return; R.act(hash2(4,r.client));
      if(r.mode==M_SERVER&&!r.got.empty()&&r.got.size()<r.quorum.size()) { // what if the client did not wait?
        A32 res; vector<int> ix; int ep=r.got[0].epoch; Bytes parts; for(auto &a:r.got) { parts.insert(parts.end(),a.part.begin(),a.part.end()); ix.push_back(a.srv); }
        int rc=sh_thcombine(r.got.size(),parts.data(),res.data()); A32 want; ref::smul(want,keys[ep],r.blinded.data()); R.hit("incomplete");
        // (with more than t missing, their weights may cancel out for some index sets)
        if(rc==0&&res==want&&r.quorum.size()-r.got.size()<=(size_t)t) R.viol(id+".incomplete",fmt("answers of %zu of %zu announced servers already give the result",r.got.size(),r.quorum.size())); }
      if(r.attempt<8) ask(id_); });
  }
  void serve(int s,u64 id_,vector<int> ann,int gen,Bytes m) {
    Srv&S=srv[s-1]; Req&r=reqs[id_]; if(!S.up) { R.hit("lost_at_crashed_server"); return; }
    Use u(*S.cx); Bytes part(33,0xee); int ret;
    if(r.mode==M_CLIENT) { part[0]=S.mem[0]; ret=sh_eval(S.mem.data()+1,m.data(),part.data()+1); }
    else if(r.mode==M_SERVER) { Bytes ix; for(int a:ann) ix.push_back((u8)a); ret=sh_teval(S.mem.data(),m.data(),s,ix.data(),(u16)ix.size(),part.data()); }
    else ret=sh_3hash(S.mem.data(),S.z.data(),m.data(),r.ssid.data(),(u16)r.ssid.size(),part.data());
    R.act(hash2(hash2(2,s),(u64)ret)); R.h(hashb(part));
    if(ret) { R.viol(id+".refused",fmt("server %d refuses a proper request (%d)",s,ret)); return; }
    if(part[0]!=s) R.viol(id+".index",fmt("answer of server %d is labelled %d",s,part[0]));
    int ep=S.epoch; send(s,[=](Bytes a){ answer(s,ep,id_,gen,a); },part);
  }
  void answer(int s,int ep,u64 id_,int gen,Bytes part) {
    Req&r=reqs[id_]; R.act(hash2(hash2(3,s),r.client));
    bool known=false; for(auto &a:r.all) if(a.srv==s&&a.epoch==ep&&(r.mode!=M_SERVER||a.part==part)) known=true; 
    if(!known) r.all.push_back({s,ep,id_,part}); else R.hit("duplicate");
    if(r.done) { R.hit("late"); return; }
    if(r.mode==M_SERVER&&gen!=(r.attempt-1)/3) { R.hit("stale"); return; }
    for(auto &a:r.got) if(a.srv==s) return;
    r.got.push_back({s,ep,id_,part});
    if(r.got.size()<(r.mode==M_SERVER?r.quorum.size():(size_t)r.q)) return;
    r.done=true; finish(r,r.got,"");
  }
  static bool same_epoch(const vector<Answer>&v) { for(auto &a:v) if(a.epoch!=v[0].epoch) return false; return true; }
  void finish(Req&r,const vector<Answer>&v,const char*how) {
    Use u(*cl[r.client]); Bytes parts; vector<int> ix; for(auto &a:v) { parts.insert(parts.end(),a.part.begin(),a.part.end()); ix.push_back(a.srv); }
    A32 res; memset(res.data(),0x3c,32); Bytes before=parts;
    int rc=r.mode==M_SERVER?sh_thcombine(v.size(),parts.data(),res.data()):sh_thmult(v.size(),parts.data(),res.data());
    R.h(hashb(res.data(),32)); R.h((u64)rc); R.hit(r.mode==0?"combined_by_client":r.mode==1?"combined_by_servers":"combined_masked");
    if(parts!=before) R.viol(id+".input","combining changes the answers");
    if(same_epoch(v)) {
      A32 want; ref::smul(want,keys[v[0].epoch],r.blinded.data());
      if(rc||res!=want) { R.viol(id+".combine",fmt("answers of servers %s (threshold %d of %d)%s: code %d, %s",list(ix).c_str(),t,n,how,rc,rc?"no result":"wrong result")); return; }
      A32 nn; Bytes out(64,0x3d); int r1=sh_unblind(r.r.data(),res.data(),nn.data()), r2=r1?1:sh_finalize(r.x.data(),(u16)r.x.size(),nn.data(),out.data()); R.h(hashb(out));
      if(r1||r2||out!=ref_out(keys[v[0].epoch],r.x)) R.viol(id+".output",fmt("client output after servers %s differs from the undivided key's (codes %d %d)",list(ix).c_str(),r1,r2));
    } else { R.hit("mixed_epochs");
      // (with more than t deviating answers, their weights may cancel out for some index sets)
      for(size_t e=0;e<keys.size();e++) { size_t dev=0; for(auto &a:v) if(a.epoch!=(int)e) dev++; if(dev>(size_t)t-(id=="T10")) continue; A32 want; ref::smul(want,keys[e],r.blinded.data()); R.hit("mixed_decided"); if(rc==0&&res==want) R.viol(id+".mixed",fmt("answers of servers %s from before and after the update give a valid result",list(ix).c_str())); } }
  }
  void update(const Fault&f) { // k <- k*delta by joint multiplication
    vector<int> part; for(auto &s:srv) if(s.up&&!((f.get("miss")>>((s.idx-1)%48))&1)&&s.epoch==(int)keys.size()-1) part.push_back(s.idx);
    int need=2*t-1; if((int)part.size()<need) { R.hit("update_impossible"); return; }
    R.act(9); R.fire("key.update"); Rng r(hash2((u64)f.get("at"),77)); r.shuffle(part);
    vector<int> dealers(part.begin(),part.begin()+need+(part.size()>(size_t)need?r.below(part.size()-need+1):0));
    A32 delta=f.get("one")?ref::sc(1):ref::rnd(r); Bytes ds(33*n); { Use u(*srv[0].cx); sh_create_shares(delta.data(),n,t,ds.data()); }
    map<int,Bytes> out; for(int d:dealers) { Srv&S=srv[d-1]; Use u(*S.cx); Bytes sh(33*n,0x11); if(sh_mul_start(S.mem.data(),ds.data()+33*(d-1),n,t,sh.data())) { R.viol(id+".update",fmt("server %d cannot contribute to the update",d)); return; } out[d]=sh; }
    for(int j:part) { Srv&S=srv[j-1]; Use u(*S.cx); vector<int> o=dealers; if(f.get("sameorder")==0) r.shuffle(o); Bytes ix,in; for(int d:o) { ix.push_back((u8)d); in.insert(in.end(),out[d].begin()+33*(j-1),out[d].begin()+33*j); }
      Bytes ns(33,0x22); sh_mul_finish((int)o.size(),ix.data(),j,in.data(),ns.data()); R.h(hashb(ns));
      if((f.get("torn")>>((j-1)%48))&1) { R.fire("disk.lost_update"); S.up=false; S.mem=Bytes(33,0); at(60,[this,j]{ restart(j); }); continue; } // crashed before the new share was stored
      S.disk=S.mem=ns; S.epoch=(int)keys.size(); }
    keys.push_back(ref::mul(keys.back(),delta));
  }
  void restart(int j) { Srv&S=srv[j-1]; S.up=true; S.mem=S.disk; S.z=S.zdisk; R.act(hash2(8,j)); }
  void run() {
    deal(); int nc=(int)p.get("clients",1), per=(int)p.get("reqs",1);
    for(int c=0;c<nc;c++) cl.push_back(std::unique_ptr<Ctx>(new Ctx(hash2((u64)p.get("libseed",5),900+c))));
    for(int c=0;c<nc;c++) for(int j=0;j<per;j++) at(p.get(fmt("start%d_%d",c,j).c_str(),j*50),[=]{ start(c,j); });
    for(auto &f:p.f) { if(f.kind=="srv.crash") at(f.get("at"),[this,f]{ int s=(int)(f.get("srv")-1)%n+1; if(!srv[s-1].up) return; R.fire("srv.crash"); R.act(hash2(7,s)); srv[s-1].up=false; srv[s-1].mem=Bytes(33,0); srv[s-1].z=Bytes(33,0); at(f.get("down"),[this,s]{ restart(s); }); });
      if(f.kind=="srv.stolen") at(f.get("at"),[this,f]{ int s=(int)(f.get("srv")-1)%n; int e=srv[s].epoch; auto &m=stolen[e]; if((int)m.size()>=t-1||m.count(s+1)) return; R.fire("srv.stolen"); R.act(hash2(10,s)); m[s+1]=srv[s].disk; });
      if(f.kind=="key.update") at(f.get("at"),[this,f]{ update(f); }); }
    while(!q.empty()&&now<60000) { auto it=q.begin(); now=it->first.first; auto f=it->second; q.erase(it); f(); }
    R.sim_ms=(u64)now;
    // other quorums over what arrived
    Rng o((u64)p.get("pick",7)+1);
    for(auto &r:reqs) {
      R.states.push_back(hash2(hash2(r.mode,r.got.size()),hash2(r.all.size(),r.attempt)));
      if(r.done) R.hit("answered"); else R.hit("unanswered");
      if(r.mode==M_SERVER) continue;
      vector<Answer> a; set<int> seen; bool multi=false; for(auto &x:r.all) { if(seen.insert(x.srv).second) a.push_back(x); else multi=true; } (void)multi;
      if((int)a.size()<t) continue;
      for(int k=0;k<(n>60?1:3);k++) { vector<Answer> b=a; o.shuffle(b); b.resize(t+o.below(a.size()-t+1)); finish(r,b," (other quorum)"); }
      if(t>1&&same_epoch(a)) { vector<Answer> b=a; o.shuffle(b); b.resize(t-1); Bytes ps; for(auto &x:b) ps.insert(ps.end(),x.part.begin(),x.part.end()); A32 res,want; ref::smul(want,keys[a[0].epoch],r.blinded.data()); if(sh_thmult(b.size(),ps.data(),res.data())==0&&res==want) R.viol(id+".below","fewer answers than the threshold give the result"); }
    }
    if(id=="T10") below(o);
    if(id=="T03") for(size_t a=0;a<reqs.size();a++) for(size_t b=0;b<reqs.size();b++) if(a!=b&&reqs[a].mode==M_MASKED&&reqs[b].mode==M_MASKED) mixed(reqs[a],reqs[b],o);
    if(id=="T03") for(auto &r:reqs) if(r.mode==M_MASKED&&!r.all.empty()) resplit(r,o);
  }
  // everything an adversary may hold stays short of the threshold in every epoch
  void below(Rng&o) {
    if(t<2) return;
    auto is_key=[&](const A32&x){ for(auto &k:keys) if(x==k) return true; return false; };
    auto judge=[&](const vector<int>&ix,const vector<A32>&v,const char*what){ if(ix.empty()) return; Bytes in; for(size_t i=0;i<ix.size();i++) { Bytes m=mkshare(ix[i],v[i]); in.insert(in.end(),m.begin(),m.end()); }
      A32 a=ref::interp0(ix,v),b; memset(b.data(),0x5a,32); sh_dkg_reconstruct(ix.size(),in.data(),b.data()); R.h(hashb(b.data(),32)); R.hit("attempts"); if(is_key(a)||is_key(b)) R.viol("T10.key",fmt("%zu shares (%s of servers %s) give the key, threshold %d of %d",ix.size(),what,list(ix).c_str(),t,n)); };
    for(auto &e:stolen) { vector<int> ix; vector<A32> v; for(auto &x:e.second) { ix.push_back(x.first); v.push_back(sval(x.second)); if(is_key(v.back())) R.viol("T10.key",fmt("the share of server %d is the key",x.first)); } judge(ix,v,"stolen");
      for(size_t a=0;a<v.size();a++) for(size_t b=0;b<a;b++) if(v[a]==v[b]) R.viol("T10.same",fmt("servers %d and %d hold the same share value",ix[b],ix[a])); }
    // shares stolen before and after a renewal
    for(auto &e:stolen) for(auto &f:stolen) if(e.first<f.first) {
      for(auto &x:e.second) if(f.second.count(x.first)&&f.second[x.first]==x.second) R.viol("T10.renewed",fmt("server %d holds the same share after a renewal",x.first));
      vector<int> ix; vector<A32> v; set<int> have; for(auto &x:e.second) { ix.push_back(x.first); v.push_back(sval(x.second)); have.insert(x.first); }
      for(auto &x:f.second) if(!have.count(x.first)&&(int)ix.size()<t) { ix.push_back(x.first); v.push_back(sval(x.second)); }
      if((int)ix.size()>=t) { R.hit("mixed_epoch_attempts"); judge(ix,v,"stolen before and after renewal"); } }
    // any t-1 stored shares of one epoch
    for(int k=0;k<3;k++) { int e=(int)o.below(keys.size()); vector<int> all; for(auto &s:srv) if(s.epoch==e) all.push_back(s.idx); if((int)all.size()<t-1) continue; o.shuffle(all); all.resize(o.chance(3,4)?t-1:1+o.below(t-1)); vector<A32> v; for(int i:all) v.push_back(sval(srv[i-1].disk)); judge(all,v,"stored"); }
    // answers
    for(auto &r:reqs) { Use u(*cl[r.client]); 
      for(size_t e=0;e<keys.size();e++) { A32 want; ref::smul(want,keys[e],r.blinded.data()); map<int,Bytes> a; for(auto &x:r.all) if(x.epoch==(int)e) a.insert({x.srv,x.part});
        if(r.mode!=M_SERVER&&!a.empty()) { vector<int> ix; for(auto &x:a) ix.push_back(x.first); o.shuffle(ix); if((int)ix.size()>=t) ix.resize(t-1); Bytes ps; for(int i:ix) ps.insert(ps.end(),a[i].begin(),a[i].end());
          A32 res; memset(res.data(),0x31,32); int rc=sh_thmult(ix.size(),ps.data(),res.data()); R.h(hashb(res.data(),32)); R.hit("answer_attempts"); if(rc==0&&res==want) R.viol("T10.answers",fmt("answers of servers %s alone give the result, threshold %d of %d",list(ix).c_str(),t,n));
          vector<int> other; for(int i=1;i<=n;i++) if(std::find(ix.begin(),ix.end(),i)==ix.end()) other.push_back(i);
          if(!other.empty()) { Bytes c=a[ix[0]]; c[0]=(u8)other[o.below(other.size())]; ps.insert(ps.end(),c.begin(),c.end()); memset(res.data(),0x31,32); rc=sh_thmult(ix.size()+1,ps.data(),res.data()); R.hit("relabelled_attempts"); if(rc==0&&res==want) R.viol("T10.answers",fmt("answers of servers %s and a relabelled one give the result, threshold %d of %d",list(ix).c_str(),t,n)); } }
        // a quorum announced too small, servers weighing their answers
        vector<int> up; for(auto &s:srv) if(s.epoch==(int)e) up.push_back(s.idx); if(up.empty()) continue; o.shuffle(up); up.resize(std::min<size_t>(up.size(),t-1)); Bytes ann,ps; for(int i:up) ann.push_back((u8)i);
        for(int i:up) { Bytes part(33,0xee); if(sh_teval(srv[i-1].disk.data(),r.blinded.data(),i,ann.data(),(u16)ann.size(),part.data())) { R.viol("T10.refused",fmt("server %d refuses a proper request",i)); return; } ps.insert(ps.end(),part.begin(),part.end()); }
        A32 res; memset(res.data(),0x31,32); int rc=sh_thcombine(up.size(),ps.data(),res.data()); R.hit("small_quorum_attempts"); if(rc==0&&res==want) R.viol("T10.answers",fmt("weighted answers of servers %s alone give the result, threshold %d of %d",list(up).c_str(),t,n)); } }
  }
  void mixed(Req&a,Req&b,Rng&o) { // some answers belong to another request
    map<int,Answer> x,y; for(auto &e:a.all) x.insert({e.srv,e}); for(auto &e:b.all) y.insert({e.srv,e});
    vector<int> both; for(auto &e:x) if(y.count(e.first)) both.push_back(e.first); if((int)both.size()<t||t<2) return;
    o.shuffle(both); both.resize(t+o.below(both.size()-t+1)); Bytes ps; size_t k=1+o.below(both.size()-1); vector<int> ix;
    for(size_t i=0;i<both.size();i++) { Bytes&s=i<k?x.find(both[i])->second.part:y.find(both[i])->second.part; ps.insert(ps.end(),s.begin(),s.end()); ix.push_back(both[i]); }
    A32 res,w1,w2; ref::smul(w1,keys[0],a.blinded.data()); ref::smul(w2,keys[0],b.blinded.data()); R.hit("mixed_sessions");
    // (with more than t answers of the other kind, their weights may cancel out for some index sets)
    if(sh_thmult(both.size(),ps.data(),res.data())==0&&((res==w1&&both.size()-k<=(size_t)t)||(res==w2&&k<=(size_t)t))) R.viol("T03.mixed",fmt("answers of servers %s for two different requests combine to a valid result",list(ix).c_str()));
  }
  void resplit(Req&r,Rng&o) { // same blinded element, some servers work under another sub-session identifier
    vector<int> ix=subset(o,n,std::min(n,t+(int)o.below(3))); if(ix.size()<2) return; Bytes s2=r.ssid; u64 how=o.below(4);
    if(how==0) s2[o.below(s2.size())]^=(u8)(1<<o.below(8)); else if(how==1) s2.push_back(0); else if(how==2&&s2.size()>1) s2.pop_back(); else s2.insert(s2.begin(),0);
    size_t k=1+o.below(ix.size()-1); if(k>=(size_t)t&&ix.size()-k>=(size_t)t) return; Bytes ps; // a sharing of zero: t deviating answers may cancel out
    for(size_t i=0;i<ix.size();i++) { Srv&S=srv[ix[i]-1]; Use u(*S.cx); Bytes part(33); const Bytes&id_=i<k?r.ssid:s2; sh_3hash(S.disk.data(),S.zdisk.data(),r.blinded.data(),id_.data(),(u16)id_.size(),part.data()); ps.insert(ps.end(),part.begin(),part.end()); }
    A32 res,w; ref::smul(w,keys[0],r.blinded.data()); R.hit("split_session");
    if(sh_thmult(ix.size(),ps.data(),res.data())==0&&res==w) R.viol("T03.split",fmt("answers under two sub-session identifiers combine to a valid result (servers %s)",list(ix).c_str()));
    // what is left of an answer without the evaluation itself: must be fresh for every element and identifier
    Srv&S=srv[ix[0]-1]; Use u(*S.cx); A32 k1=sval(S.disk),alt,m[3]; u8 hb[64]; o.fill(hb,64); crypto_core_ristretto255_from_hash(alt.data(),hb);
    for(int i=0;i<3;i++) { const u8*al=i==1?alt.data():r.blinded.data(); const Bytes&id_=i==2?s2:r.ssid; Bytes part(33); A32 e; if(sh_3hash(S.disk.data(),S.zdisk.data(),al,id_.data(),(u16)id_.size(),part.data())||!ref::smul(e,k1,al)) return; crypto_core_ristretto255_sub(m[i].data(),part.data()+1,e.data()); }
    R.hit("masks"); if(is_zero(m[0].data())||is_zero(m[1].data())) R.viol("T03.mask",fmt("answer of server %d is not masked",ix[0])); else if(m[0]==m[1]) R.viol("T03.mask",fmt("server %d masks answers to different requests alike",ix[0])); else if(m[0]==m[2]) R.viol("T03.mask",fmt("server %d masks answers of different sub-sessions alike",ix[0]));
  }
};

static void g_svc_faults(Plan&p,Rng&r,int n,i64 span) {
  int c=(int)r.below(6); i64 tot=2*n*p.get("clients",1)*p.get("reqs",1)+4;
  for(int i=0;i<c;i++) switch(r.below(5)) {
    case 0: { int k=(int)r.range(1,1+n/2); for(int j=0;j<k;j++) p.add("net.drop",{{"msg",r.range(0,tot)}}); break; }
    case 1: p.add("net.dup",{{"msg",r.range(0,tot)},{"ms",r.range(0,300)}}); break;
    case 2: p.add("net.delay",{{"msg",r.range(0,tot)},{"ms",r.range(1,1500)}}); break;
    case 3: { i64 f=r.range(0,span); p.add("net.partition",{{"srv",r.range(1,n)},{"from",f},{"to",f+r.range(1,900)}}); break; }
    case 4: p.add("srv.crash",{{"srv",r.range(1,n)},{"at",r.range(0,span)},{"down",r.range(1,900)}}); break;
  }
}
static Plan gen_svc(Rng&r,const string&id,u64 seed,u64 index,bool th) {
  Plan p; gen_nt(p,r,th,id=="T01"||id=="T02"); i64 n=p.get("n"), t=p.get("t");
  if(id=="T03"&&t<2) p.p["t"]=t=2;
  if(id=="T07"&&n<3) { p.p["n"]=n=3; }
  if(id=="T07") { if(n>20) p.p["n"]=n=r.range(5,20); if(t>(n+1)/2&&r.chance(4,5)) p.p["t"]=t=std::max<i64>(2,r.range(2,(n+1)/2)); if(t>n) p.p["t"]=t=n; }
  if(id=="T10") { if(n>24) p.p["n"]=n=r.range(3,24); if(t>n||t<2) p.p["t"]=t=r.range(2,n); }
  p.p["mode"]=id=="T01"?M_CLIENT:id=="T02"?M_SERVER:M_MASKED;
  p.p["clients"]=n>60?1:r.range(1,3); p.p["reqs"]=n>60?1:r.range(1,id=="T07"?4:2);
  p.p["extra"]=r.chance(1,2)?0:r.chance(1,4)?n-t:r.range(0,n-t); p.p["lat"]=(i64)(r.next()>>2); p.p["pick"]=(i64)(r.next()>>2); p.p["libseed"]=(i64)(r.next()>>2); p.p["key"]=r.chance(1,40)?0:(i64)(r.next()>>2); p.p["input"]=(i64)(r.next()>>2);
  p.p["maxlat"]=r.pick(vector<i64>{5,50,200,600}); p.p["timeout"]=r.range(200,600); p.p["sameinput"]=r.below(2);
  i64 span=400;
  if(id=="T10"&&r.chance(2,3)&&n>=3&&t>(n+1)/2) p.p["t"]=t=r.range(2,(n+1)/2); // so that the key can be renewed
  if(id=="T07"||id=="T10") {
    span=1600; p.p["dkg"]=r.below(2); p.p["sameinput"]=1;
    for(int c=0;c<p.get("clients");c++) { p.p[fmt("mode%d",c)]=(i64)r.below(3); for(int j=0;j<p.get("reqs");j++) p.p[fmt("start%d_%d",c,j)]=r.range(0,span); }
    int k=(int)r.below(3); for(int i=0;i<k;i++) p.add("key.update",{{"at",r.range(0,span)},{"miss",r.chance(1,2)?0:(i64)(r.next()&r.next()&r.next()&0xffffff)},{"torn",r.chance(2,3)?0:(i64)(r.next()&r.next()&r.next()&0xffffff)},{"sameorder",(i64)r.below(2)},{"one",id=="T10"?(i64)r.below(2):0}});
    if(id=="T10") { int c=(int)r.range(t-1,2*t+1); for(int i=0;i<c;i++) p.add("srv.stolen",{{"srv",r.range(1,n)},{"at",r.range(0,span+200)}}); }
  } else for(int c=0;c<p.get("clients");c++) for(int j=0;j<p.get("reqs");j++) p.p[fmt("start%d_%d",c,j)]=r.range(0,200);
  g_svc_faults(p,r,(int)n,span);
  return p;
}
static void exec_svc(const Plan&p,Result&r) { Service s(p,r); s.run(); u64 f=0; for(auto &e:r.fired) f+=e.second; r.nontrivial=f>0||r.probe["mixed_sessions"]+r.probe["split_session"]+r.probe["incomplete"]>0; }

// ---------------------------------------------------------------- T04
static const int NBAD=8;
static A32 bad_el(Rng&r,int kind,const A32&good) {
  A32 v{}; 
  switch(kind%NBAD) {
    case 0: break;                                           // neutral
    case 1: r.fill(v.data(),32); v[31]|=0x80; break;          // field element too large
    case 2: do { r.fill(v.data(),32); v[31]&=0x7f; v[0]&=0xfe; } while(crypto_core_ristretto255_is_valid_point(v.data())); break; // no such point
    case 3: v=good; v[0]^=1; break;                           // negative encoding
    case 4: memset(v.data(),0xff,32); v[0]=0xed; v[31]=0x7f; break; // p: neutral, not reduced
    case 5: v=good; v[31]|=0x80; break;                       // unused bit set
    case 6: memset(v.data(),0xff,32); break;
    case 7: v=good; v[r.below(32)]^=(u8)(1<<r.below(8)); break; // a flipped bit (may still be valid)
  }
  return v;
}
static Plan gen_t04(Rng&r,const string&id,u64 seed,u64 index,bool th) {
  Plan p; gen_nt(p,r,th,false); i64 n=p.get("n"); if(n>30) p.p["n"]=n=r.range(3,30); if(p.get("t")>n) p.p["t"]=n;
  p.p["seed"]=(i64)(r.next()>>2); p.p["mode"]=r.below(4); p.p["extra"]=r.range(0,n-p.get("t"));
  int c=(int)r.range(1,3); for(int i=0;i<c;i++) { u64 k=r.below(4);
    if(k==0) p.add("el.request",{{"srv",r.range(1,n)},{"kind",(i64)r.below(NBAD)},{"salt",(i64)r.below(1000)}});
    else if(k<3) p.add("el.answer",{{"pos",r.range(0,n-1)},{"kind",(i64)r.below(NBAD)},{"salt",(i64)r.below(1000)}});
    else p.add("el.result",{{"kind",(i64)r.below(NBAD)},{"salt",(i64)r.below(1000)}}); }
  if(r.chance(1,8)) p.add("disk.zero",{{"who",(i64)r.below(2)}});
  if(r.chance(1,10)) p.add("net.flood",{{"count",r.chance(1,2)?256:r.range(257,600)}});
  return p;
}
static void exec_t04(const Plan&p,Result&R) {
  int n=(int)p.get("n",3),t=(int)p.get("t",2),mode=(int)p.get("mode"); Rng r((u64)p.get("seed",1)); Ctx cx((u64)p.get("seed",1)); Use u(cx);
  A32 K=ref::rnd(r),z0=ref::sc(0); Bytes sh(33*n),zs(33*n); sh_create_shares(K.data(),n,t,sh.data()); sh_create_shares(z0.data(),n,t,zs.data());
  Bytes x(12); r.fill(x.data(),12); A32 rr,bl; sh_blind(x.data(),12,rr.data(),bl.data());
  vector<int> q=subset(r,n,std::min(n,t+(int)p.get("extra"))); Bytes qi; for(int s:q) qi.push_back((u8)s); Bytes ssid(9,7);
  Bytes parts; bool bad=false; 
  for(int s:q) { A32 in=bl; for(auto &f:p.f) if(f.kind=="el.request"&&(f.get("srv")-1)%n+1==s) { Rng fr((u64)f.get("salt")+1); in=bad_el(fr,(int)f.get("kind"),in); R.fire(f.kind); }
    Bytes part(33,0xcc); int ret; part[0]=(u8)s; const u8*k=sh.data()+33*(s-1);
    if(mode==M_SERVER) { ret=sh_teval(k,in.data(),s,qi.data(),(u16)qi.size(),part.data()); }
    else if(mode==M_MASKED) ret=sh_3hash(k,zs.data()+33*(s-1),in.data(),ssid.data(),9,part.data());
    else ret=sh_eval(k+1,in.data(),part.data()+1);
    R.act(hash2(hash2(1,s),(u64)ret)); R.h(hashb(part)); 
    bool g=good_point(in.data());
    if(!g&&ret==0) { R.viol("T04.evaluated",fmt("server %d evaluates an invalid or neutral element (mode %d)",s,mode)); }
    if(g&&ret!=0) R.viol("T04.refused",fmt("server %d refuses a valid element",s));
    if(!g) { R.hit("server_refused"); ret=0; Bytes p2(33,0); part[0]=(u8)s; // it would not answer; keep the run going with an honest answer
      if(mode==M_SERVER) { sh_teval(k,bl.data(),s,qi.data(),(u16)qi.size(),part.data()); } else if(mode==M_MASKED) sh_3hash(k,zs.data()+33*(s-1),bl.data(),ssid.data(),9,part.data()); else sh_eval(k+1,bl.data(),part.data()+1); }
    else if(in!=bl) bad=true;
    parts.insert(parts.end(),part.begin(),part.end()); }
  int m=(int)q.size(); bool invalid=false; Bytes before=parts;
  for(auto &f:p.f) if(f.kind=="el.answer") { int i=(int)f.get("pos")%m; Rng fr((u64)f.get("salt")+1); A32 v; memcpy(v.data(),parts.data()+33*i+1,32); A32 w=bad_el(fr,(int)f.get("kind"),v); memcpy(parts.data()+33*i+1,w.data(),32); R.fire(f.kind); }
  if(parts!=before) bad=true;
  for(int i=0;i<m;i++) if(!good_point(parts.data()+33*i+1)) invalid=true;
  auto comb=[&](const Bytes&ps,A32&o){ return mode==M_SERVER?sh_thcombine(m,ps.data(),o.data()):sh_thmult(m,ps.data(),o.data()); };
  A32 res; int rc=comb(parts,res); R.act(hash2(2,(u64)rc)); R.h((u64)rc); R.h(hashb(res.data(),32)); A32 want; ref::smul(want,K,bl.data());
  if(invalid) { R.hit("combine_invalid"); if(rc==0) R.viol("T04.combined",fmt("combining %d answers, one invalid or neutral, reports success (mode %d)",m,mode)); }
  else if(rc!=0) R.viol("T04.refused",fmt("combining %d valid answers is refused",m));
  else { if(!bad&&res!=want) R.viol("T04.wrong","combination of proper answers is wrong"); if(bad&&res==want) R.viol("T04.ignored","a replaced answer does not change the combination");
    int i=(int)r.below(m); Bytes ps=parts; A32 o,alt; u8 hb[64]; r.fill(hb,64); crypto_core_ristretto255_from_hash(alt.data(),hb); memcpy(ps.data()+33*i+1,alt.data(),32); int r2=comb(ps,o); R.hit("perturbed"); if(r2==0&&o==res) R.viol("T04.ignored",fmt("the combination does not depend on answer %d of %d",i,m)); }
  for(auto &f:p.f) if(f.kind=="net.flood") { // more answers than there can be servers: some repeat
      size_t c=std::max<size_t>(256,(size_t)f.get("count")); Bytes ps; while(ps.size()<33*c) ps.insert(ps.end(),parts.begin(),parts.end()); ps.resize(33*c); A32 o; int ret=mode==M_SERVER?sh_thcombine(c,ps.data(),o.data()):sh_thmult(c,ps.data(),o.data()); R.fire(f.kind); R.act(hash2(4,(u64)ret));
      if(ret==0) R.viol("T04.flood",fmt("combining %zu answers reports success",c)); }
  for(auto &f:p.f) if(f.kind=="el.result") { Rng fr((u64)f.get("salt")+1); A32 v=bad_el(fr,(int)f.get("kind"),want),o; int ret=sh_unblind(rr.data(),v.data(),o.data()); R.fire(f.kind); R.act(hash2(3,(u64)ret)); bool g=good_point(v.data());
      if(!g&&ret==0) R.viol("T04.unblinded",fmt("client unblinds an invalid or neutral element (kind %lld)",(long long)f.get("kind"))); if(g&&ret!=0) R.viol("T04.refused","client refuses a valid element"); if(!g) R.hit("client_refused"); }
  for(auto &f:p.f) if(f.kind=="disk.zero") { // what was stored reads as zeros
      A32 z{},o; int ret; R.fire(f.kind);
      if(f.get("who")==0) ret=sh_unblind(z.data(),want.data(),o.data());
      else if(mode==M_SERVER) { Bytes k(33,0),part(33,0xcc); k[0]=(u8)q[0]; ret=sh_teval(k.data(),bl.data(),q[0],qi.data(),(u16)qi.size(),part.data()); }
      else ret=sh_eval(z.data(),bl.data(),o.data());
      R.act(hash2(5,(u64)ret)); if(ret==0) R.viol("T04.zero",fmt("%s with a lost secret reports success",f.get("who")?"evaluating":"unblinding")); }
  R.states.push_back(hash2(mode,hash2(invalid,m))); u64 c=0; for(auto &e:R.fired) c+=e.second; R.nontrivial=c>0; R.sim_ms=1;
}

// ---------------------------------------------------------------- T05
static Plan gen_t05(Rng&r,const string&id,u64 seed,u64 index,bool th) {
  Plan p; int t=(int)r.range(1,r.chance(1,6)?(th?12:9):5), n=2*t-1+(int)r.below(r.chance(1,8)?20:5); if(n<1) n=1; if(r.chance(1,400)) { n=255; t=std::min(t,4); } p.p["n"]=n; p.p["t"]=t; p.p["rounds"]=r.range(1,n>40?1:t>5?2:4);
  p.p["seed"]=(i64)(r.next()>>2); p.p["maxlat"]=r.range(1,200); p.p["zero"]=r.chance(1,20);
  int c=(int)r.below(5); for(int i=0;i<c;i++) { u64 k=r.below(4); i64 rd=r.below(4);
    if(k==0) p.add("net.drop",{{"round",rd},{"from",r.range(1,n)},{"to",r.range(1,n)}}); else if(k==1) p.add("net.dup",{{"round",rd},{"from",r.range(1,n)},{"to",r.range(1,n)},{"ms",r.range(0,300)}});
    else if(k==2) p.add("net.delay",{{"round",rd},{"from",r.range(1,n)},{"to",r.range(1,n)},{"ms",r.range(1,500)}}); else p.add("srv.crash",{{"round",rd},{"srv",r.range(1,n)}}); }
  if(r.chance(1,6)) p.add("disk.swap",{{"round",(i64)r.below(2)},{"srv",r.range(1,n)},{"with",r.range(1,n)}});
  if(r.chance(1,6)) p.add("conf.bad",{{"round",(i64)r.below(2)},{"srv",r.range(1,n)},{"over",(i64)r.below(3)}});
  return p;
}
static void exec_t05(const Plan&p,Result&R) {
  int n=(int)p.get("n",3),t=(int)p.get("t",2); Rng r((u64)p.get("seed",1)); Ctx cx((u64)p.get("seed",1)); Use u(cx);
  A32 a=ref::rnd(r), b=p.get("zero")?ref::sc(0):ref::rnd(r); Bytes sa(33*n),sb(33*n); sh_create_shares(a.data(),n,t,sa.data()); sh_create_shares(b.data(),n,t,sb.data());
  if(!dealing_ok(sa,n,t,a)) R.viol("T05.deal","dealt shares do not lie on a polynomial of the threshold");
  vector<bool> have(n+1,true); // holders with a current share of a
  i64 now=0; int done=0;
  for(int rd=0;rd<p.get("rounds",1);rd++) {
    vector<int> act; for(int i=1;i<=n;i++) { bool cr=false; for(auto &f:p.f) if(f.kind=="srv.crash"&&f.get("round")==rd&&(f.get("srv")-1)%n+1==i) { cr=true; R.fire(f.kind); } if(cr) have[i]=false; if(have[i]) act.push_back(i); }
    if((int)act.size()<2*t-1) { R.hit("too_few"); break; }
    // dealings travel; a dealer takes part if everything it sent arrived
    map<int,Bytes> out; vector<std::pair<i64,std::pair<int,int>>> ev; map<int,int> lost;
    for(int i:act) { Bytes sh(33*n,0x42);
      for(auto &f:p.f) if((f.kind=="disk.swap"||f.kind=="conf.bad")&&f.get("round")==rd&&(f.get("srv")-1)%n+1==i) { // a share of another holder, an impossible threshold
        int o=(int)(f.get("with",i)-1)%n+1, bt=f.get("over")?std::min(255,n+(int)f.get("over")):0; if(f.kind=="disk.swap"?o==i:bt==n) continue;
        R.fire(f.kind); Bytes x(33*n,0x42); int rc=f.kind=="disk.swap"?sh_mul_start(sa.data()+33*(i-1),sb.data()+33*(o-1),n,t,x.data()):sh_mul_start(sa.data()+33*(i-1),sb.data()+33*(i-1),n,bt,x.data()); R.act(hash2(hash2(4,i),(u64)rc));
        if(rc==0) R.viol("T05.misuse",f.kind=="disk.swap"?fmt("holder %d multiplies its share with the one of %d",i,o):fmt("holder %d starts with threshold %d of %d",i,bt,n)); }
      int rc=sh_mul_start(sa.data()+33*(i-1),sb.data()+33*(i-1),n,t,sh.data()); R.act(hash2(hash2(1,i),(u64)rc)); if(rc) { R.viol("T05.start",fmt("holder %d of %d cannot start a multiplication",i,n)); return; }
      A32 x,y; memcpy(x.data(),sa.data()+33*(i-1)+1,32); memcpy(y.data(),sb.data()+33*(i-1)+1,32); if(!dealing_ok(sh,n,t,ref::mul(x,y))) R.viol("T05.dealing",fmt("holder %d does not re-share the product of its shares",i)); R.h(hashb(sh));
      out[i]=sh;
      for(int j:act) { i64 at=now+1+(i64)r.below((u64)p.get("maxlat",20)); for(auto &f:p.f) if(f.get("round",-1)==rd&&(f.get("from")-1)%n+1==i&&(f.get("to")-1)%n+1==j) { R.fire(f.kind); if(f.kind=="net.drop") { lost[i]++; at=-1; } else if(f.kind=="net.delay") at+=f.get("ms"); else if(f.kind=="net.dup") ev.push_back({at+f.get("ms"),{i,j}}); } if(at>=0) ev.push_back({at,{i,j}}); } }
    vector<int> deal; for(int i:act) if(!lost.count(i)) deal.push_back(i);
    if((int)deal.size()<2*t-1) { R.hit("too_few"); break; }
    r.shuffle(deal); deal.resize(2*t-1+r.below(deal.size()-(2*t-1)+1)); set<int> ds(deal.begin(),deal.end()); if(deal.size()>18) { deal.resize(std::max(2*t-1,18)); ds=set<int>(deal.begin(),deal.end()); }
    std::sort(ev.begin(),ev.end()); map<int,vector<int>> arrived;
    for(auto &e:ev) { now=std::max(now,e.first); int i=e.second.first,j=e.second.second; R.act(hash2(i,j)); auto &v=arrived[j]; if(ds.count(i)&&std::find(v.begin(),v.end(),i)==v.end()) v.push_back(i); }
    A32 prod=ref::mul(a,b); vector<int> ix; vector<A32> val; Bytes ns(33*n,0);
    for(int j:act) { if(n>60&&j>t+3&&j<n) continue; auto &o=arrived[j]; Bytes di,in; for(int i:o) { di.push_back((u8)i); in.insert(in.end(),out[i].begin()+33*(j-1),out[i].begin()+33*j); }
      Bytes s(33,0x99); sh_mul_finish((int)o.size(),di.data(),j,in.data(),s.data()); R.h(hashb(s)); R.act(hash2(3,j)); if(s[0]!=j) R.viol("T05.index",fmt("share of %d is labelled %d",j,s[0])); ix.push_back(j); val.push_back(sval(s)); memcpy(ns.data()+33*(j-1),s.data(),33); }
    vector<int> bi(ix.begin(),ix.begin()+t); vector<A32> bv(val.begin(),val.begin()+t); vector<int> sub; vector<A32> sv; if(ix.size()>40) { for(size_t k=ix.size()-40;k<ix.size();k++) { sub.push_back(ix[k]); sv.push_back(val[k]); } } else { sub=ix; sv=val; }
    if(!ref::on_poly(sub,sv,t)) R.viol("T05.poly",fmt("shares after multiplication by dealers %s do not form a sharing with threshold %d",list(deal).c_str(),t));
    else { vector<int> ci(sub.begin(),sub.begin()+t); vector<A32> cv(sv.begin(),sv.begin()+t); if(ref::interp0(ci,cv)!=prod) R.viol("T05.product",fmt("shares after multiplication by dealers %s (n=%d t=%d) do not give the product",list(deal).c_str(),n,t));
      // the library's own reconstruction, in another order
      vector<int> o=ix; r.shuffle(o); o.resize(t+r.below(o.size()-t+1)); Bytes in; for(int k:o) in.insert(in.end(),ns.begin()+33*(k-1),ns.begin()+33*k); A32 rc; sh_dkg_reconstruct(o.size(),in.data(),rc.data()); if(o.size()<=40&&rc!=prod) R.viol("T05.reconstruct",fmt("shares of %s do not reconstruct the product",list(o).c_str())); }
    for(int i=1;i<=n;i++) have[i]=std::find(act.begin(),act.end(),i)!=act.end(); sa=ns; a=prod; done++; R.states.push_back(hash2(deal.size(),hash2(act.size(),rd)));
  }
  R.hit("multiplications",done); u64 c=0; for(auto &e:R.fired) c+=e.second; R.nontrivial=done>0&&(c>0||done>1||n>2*t-1); R.sim_ms=(u64)now;
}

// ---------------------------------------------------------------- T06
static Plan gen_t06(Rng&r,const string&id,u64 seed,u64 index,bool th) {
  Plan p; int n=(int)r.range(2,r.chance(1,8)?14:7); if(r.chance(1,300)) n=255; int t=(int)r.range(2,n>40?4:n); p.p["n"]=n; p.p["t"]=t; p.p["seed"]=(i64)(r.next()>>2);
  int c=(int)r.range(0,5); if(n<200) for(int i=0;i<c;i++) { i64 d=r.range(1,n),j=r.range(1,n); switch(r.below(7)) {
    case 0: p.add("share.flip",{{"from",d},{"to",j},{"byte",r.range(0,31)},{"bit",(i64)r.below(8)}}); break;
    case 1: p.add("share.swap",{{"from",d},{"to",j},{"other",r.range(1,n)}}); break;
    case 2: p.add("commit.flip",{{"from",d},{"to",j},{"k",r.range(0,t-1)},{"byte",r.range(0,31)},{"bit",(i64)r.below(8)}}); break;
    case 3: p.add("commit.swap",{{"from",d},{"to",j},{"k",r.range(0,t-1)},{"other",r.range(0,t-1)}}); break;
    case 4: p.add("commit.other",{{"from",d},{"to",j},{"k",r.range(0,t-1)},{"dealer",r.range(1,n)}}); break;
    case 5: p.add("dealer.wrong",{{"from",d},{"mask",(i64)(r.next()&0x3fff)}}); break;
    case 6: p.add("share.addL",{{"from",d},{"to",j}}); break; } }
  if(n<200&&r.chance(1,10)) p.add("deal.omit",{{"from",r.range(1,n)},{"k",r.range(0,t-1)},{"fill",r.pick(vector<i64>{0xff,0x80,1,3})}});
  if(r.chance(1,30)) p.add("commit.neutral",{{"from",r.range(1,n)},{"to",r.range(1,n)},{"k",r.range(0,t-1)}});
  return p;
}
// the polynomial behind a dealer's shares for 1..t
static vector<A32> coeffs(const Bytes&sh,int t) {
  vector<A32> out(t,ref::sc(0));
  for(int i=1;i<=t;i++) { vector<A32> p(1,ref::sc(1)); A32 den=ref::sc(1);
    for(int j=1;j<=t;j++) if(j!=i) { vector<A32> q(p.size()+1,ref::sc(0)); for(size_t k=0;k<p.size();k++) { q[k+1]=ref::add(q[k+1],p[k]); q[k]=ref::sub(q[k],ref::mul(p[k],ref::sc((u64)j))); } p=q; den=ref::mul(den,ref::sub(ref::sc((u64)i),ref::sc((u64)j))); }
    A32 y; memcpy(y.data(),sh.data()+33*(i-1)+1,32); y=ref::mul(y,ref::inv(den)); for(int k=0;k<t;k++) out[k]=ref::add(out[k],ref::mul(p[k],y)); }
  return out;
}
static void exec_t06(const Plan&p,Result&R) {
  int n=(int)p.get("n",3),t=(int)p.get("t",2); Rng r((u64)p.get("seed",1)); vector<Bytes> cm(n+1),sh(n+1); vector<std::unique_ptr<Ctx>> cx; A32 sum=ref::sc(0); bool big=n>60;
  for(int i=0;i<=n;i++) cx.push_back(std::unique_ptr<Ctx>(new Ctx(hash2((u64)p.get("seed",1),i))));
  for(int i=1;i<=n;i++) { Use u(*cx[i]); cm[i]=Bytes(32*t,0x10); sh[i]=Bytes(33*n,0x20); int rc=sh_dkg_start(n,t,cm[i].data(),sh[i].data()); R.act(hash2(1,i)); if(rc) { R.viol("T06.start",fmt("dealer %d failed (%d)",i,rc)); return; } R.h(hashb(cm[i])); R.h(hashb(sh[i]));
    vector<int> ix; vector<A32> v; for(int j=1;j<=n;j++) { if(sh[i][33*(j-1)]!=j) R.viol("T06.label",fmt("share of %d for %d is labelled %d",i,j,sh[i][33*(j-1)])); A32 x; memcpy(x.data(),sh[i].data()+33*(j-1)+1,32); ix.push_back(j); v.push_back(x); }
    if(!big||i==1) { if(!ref::on_poly(ix,v,t)) R.viol("T06.dealing",fmt("dealer %d's shares do not lie on one polynomial",i)); vector<int> bi(ix.begin(),ix.begin()+t); vector<A32> bv(v.begin(),v.begin()+t); A32 g; ref::base(g,ref::interp0(bi,bv)); if(memcmp(g.data(),cm[i].data(),32)) R.viol("T06.dealing",fmt("dealer %d does not commit to its secret",i)); } }
  auto hit=[&](const Fault&f,int i,int j){ return (f.get("from")-1)%n+1==i&&(!f.a.count("to")||(f.get("to")-1)%n+1==j); };
  vector<set<int>> rej(n+1); vector<vector<Bytes>> got(n+1,vector<Bytes>(n+1)); vector<set<int>> open(n+1);
  vector<int> order=subset(r,n,n); // in which the parties get to verify
  for(int j:order) { if(big&&j>3&&j!=n) continue;
    Bytes C,S; vector<int> verdict(n+1,0);
    for(int i=1;i<=n;i++) { Bytes c=cm[i], s(sh[i].begin()+33*(j-1),sh[i].begin()+33*j); bool touched=false;
      for(auto &f:p.f) if(hit(f,i,j)) { 
        if(f.kind=="share.flip") { s[1+f.get("byte")%32]^=(u8)(1<<f.get("bit")); }
        else if(f.kind=="share.swap") { int o=(int)(f.get("other")-1)%n; s=Bytes(sh[i].begin()+33*o,sh[i].begin()+33*o+33); s[0]=(u8)j; }
        else if(f.kind=="share.addL") { // same residue, other representation
          static const u8 L[32]={0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10}; unsigned cy=0; for(int k=0;k<32;k++) { cy+=s[1+k]+L[k]; s[1+k]=(u8)cy; cy>>=8; } }
        else if(f.kind=="commit.flip") c[32*(f.get("k")%t)+f.get("byte")%32]^=(u8)(1<<f.get("bit"));
        else if(f.kind=="commit.swap") { int a=(int)f.get("k")%t,b=(int)f.get("other")%t; for(int k=0;k<32;k++) std::swap(c[32*a+k],c[32*b+k]); }
        else if(f.kind=="commit.other") { int k=(int)f.get("k")%t; memcpy(c.data()+32*k,cm[(f.get("dealer")-1)%n+1].data()+32*k,32); }
        else if(f.kind=="commit.neutral") { memset(c.data()+32*(f.get("k")%t),0,32); }
        else if(f.kind=="deal.omit") { // a commitment that is no group element, and shares of the polynomial without that coefficient
          int k=(int)f.get("k")%t; vector<A32> co=coeffs(sh[i],t); A32 x=co[k]; for(int e=0;e<k;e++) x=ref::mul(x,ref::sc((u64)j)); A32 y; memcpy(y.data(),s.data()+1,32); y=ref::sub(y,x); memcpy(s.data()+1,y.data(),32); memset(c.data()+32*k,(int)f.get("fill"),32); }
        else if(f.kind=="dealer.wrong") { if(!((f.get("mask")>>((j-1)%14))&1)) continue; s[1]^=1; }
        touched=true; R.fire(f.kind); }
      // reference verdict: 1 cannot match, 0 matches, 2 either answer is fine
      int v=0; if(i!=j&&touched) { bool zero=false,inv=false; for(int k=0;k<t;k++) { const u8*e=c.data()+32*k; if(is_zero(e)) zero=true; else if(crypto_core_ristretto255_is_valid_point(e)!=1) inv=true; }
        if(inv) v=1; else { A32 l{},g{}; if(!ref::base(l,ref::reduce(s.data()+1))) l.fill(0); A32 pw=ref::sc(1); for(int k=0;k<t;k++) { A32 x; if(!is_zero(c.data()+32*k)&&ref::smul(x,pw,c.data()+32*k)) { if(is_zero(g.data())) g=x; else ref::padd(g,g.data(),x.data()); } pw=ref::mul(pw,ref::sc((u64)j)); } v=l!=g?1:(zero||!ref::canonical(s.data()+1))?2:0; } }
      verdict[i]=v; got[j][i]=s; C.insert(C.end(),c.begin(),c.end()); S.insert(S.end(),s.begin(),s.end());
      if(i!=j) { Use u(*cx[j]); int one=sh_dkg_verify1(n,t,j,i,c.data(),s.data()); if(v==1&&one==0) R.viol("T06.accepted",fmt("party %d accepts the wrong dealing of %d",j,i)); if(v==0&&one!=0) R.viol("T06.rejected",fmt("party %d rejects the matching dealing of %d",j,i)); }
    }
    Use u(*cx[j]); Bytes fl(n,0xdd); u8 nf=0xdd; int rc=sh_dkg_verify(n,t,j,C.data(),S.data(),fl.data(),&nf); R.act(hash2(hash2(2,j),nf)); R.h(hashb(fl)); R.h((u64)rc);
    set<int> L; if(nf>n) { R.viol("T06.list",fmt("party %d reports %d rejected dealers of %d",j,nf,n)); continue; }
    for(int k=0;k<nf;k++) if(!L.insert(fl[k]).second) R.viol("T06.list",fmt("party %d lists dealer %d twice",j,fl[k]));
    for(int i=1;i<=n;i++) { if(verdict[i]==1&&!L.count(i)) R.viol("T06.missed",fmt("party %d does not reject dealer %d whose dealing does not match (list has %d)",j,i,nf)); if(verdict[i]==0&&L.count(i)) R.viol("T06.blamed",fmt("party %d rejects dealer %d whose dealing matches",j,i)); if(verdict[i]==1) R.hit("bad_dealings"); if(verdict[i]==2) open[j].insert(i); }
    for(int i:L) if(i<1||i>n) R.viol("T06.list",fmt("party %d rejects unknown dealer %d",j,i));
    if((rc!=0)!=(nf!=0)) R.viol("T06.code",fmt("party %d: result %d with %d rejected dealers",j,rc,nf));
    rej[j]=L; R.states.push_back(hash2(nf,hash2(n,t)));
  }
  if(big) { R.nontrivial=true; R.sim_ms=1; return; }
  // everybody drops the dealers anybody rejected
  set<int> qual; for(int i=1;i<=n;i++) { bool ok=true; for(int j=1;j<=n;j++) if(rej[j].count(i)||open[j].count(i)) ok=false; for(auto &f:p.f) if((f.kind.compare(0,6,"commit")==0||f.kind=="share.addL"||f.kind=="deal.omit")&&(f.get("from")-1)%n+1==i) ok=false; for(auto &f:p.f) if((f.kind=="share.flip"||f.kind=="share.swap"||f.kind=="dealer.wrong")&&(f.get("from")-1)%n+1==i) ok=ok&&sh[i].size()>0; if(ok) qual.insert(i); }
  // a dealer may have handed a wrong share to itself, which it cannot notice
  for(int i=1;i<=n;i++) if(got[i][i]!=Bytes(sh[i].begin()+33*(i-1),sh[i].begin()+33*i)) qual.erase(i);
  if(!qual.empty()) { vector<int> ix; vector<A32> v; Bytes all(33*n,0); A32 sec=ref::sc(0);
    for(int i:qual) { vector<int> bi; vector<A32> bv; for(int j=1;j<=t;j++) { bi.push_back(j); A32 x; memcpy(x.data(),sh[i].data()+33*(j-1)+1,32); bv.push_back(x); } sec=ref::add(sec,ref::interp0(bi,bv)); }
    for(int j=1;j<=n;j++) { Use u(*cx[j]); Bytes in; vector<int> o(qual.begin(),qual.end()); r.shuffle(o); for(int i:o) in.insert(in.end(),got[j][i].begin(),got[j][i].end()); A32 xi; sh_dkg_finish((int)o.size(),in.data(),j,xi.data()); R.h(hashb(xi.data(),32)); ix.push_back(j); v.push_back(xi); Bytes m=mkshare(j,xi); memcpy(all.data()+33*(j-1),m.data(),33); }
    if(!ref::on_poly(ix,v,t)) R.viol("T06.poly","sums of matching dealings are not a consistent sharing");
    for(int k=0;k<3;k++) { vector<int> o=subset(r,n,t+(int)r.below(n-t+1)); Bytes in; for(int j:o) in.insert(in.end(),all.begin()+33*(j-1),all.begin()+33*j); A32 rc; memset(rc.data(),0x31,32); sh_dkg_reconstruct(o.size(),in.data(),rc.data()); R.h(hashb(rc.data(),32)); R.hit("reconstructed"); if(rc!=sec) R.viol("T06.reconstruct",fmt("parties %s (threshold %d) do not reconstruct the key",list(o).c_str(),t)); } }
  u64 c=0; for(auto &e:R.fired) c+=e.second; R.nontrivial=c>0; R.sim_ms=1;
}

// ---------------------------------------------------------------- T09
static Plan gen_t09(Rng&r,const string&id,u64 seed,u64 index,bool th) {
  Plan p; p.p["seed"]=(i64)(r.next()>>2); p.p["ops"]=r.range(3,14); p.p["n"]=r.range(2,5);
  int c=(int)r.range(1,4); for(int i=0;i<c;i++) p.add("res.mlock",{{"op",r.range(0,13)},{"at",r.pick(vector<i64>{1,1,1,2,2,3})}});
  if(r.chance(1,3)) p.add("el.bad",{{"op",r.range(0,13)},{"kind",(i64)r.below(NBAD)}});
  return p;
}
static void exec_t09(const Plan&p,Result&R) {
  Rng r((u64)p.get("seed",1)); int n=(int)p.get("n",3),t=2; Ctx cx((u64)p.get("seed",1)); Use u(cx); A32 K=ref::rnd(r),zz=ref::sc(0); Bytes sh(33*n),zs(33*n); sh_create_shares(K.data(),n,t,sh.data()); sh_create_shares(zz.data(),n,t,zs.data());
  static const char*names[]={"blind","evaluate","unblind","finalize","masked evaluate","hash to group","threshold evaluate","deal"};
  for(int op=0;op<p.get("ops",3);op++) {
    int k=(int)r.below(8); Bytes x(r.below(60)); r.fill(x.data(),x.size()); i64 fail=0; int badk=-1;
    for(auto &f:p.f) { if(f.kind=="res.mlock"&&f.get("op")==op) fail=f.get("at"); if(f.kind=="el.bad"&&f.get("op")==op) badk=(int)f.get("kind"); }
    A32 h=ref_h2g(x),rr=ref::rnd(r),al,be,nn; ref::smul(al,rr,h.data()); ref::smul(be,K,al.data()); ref::smul(nn,K,h.data()); Bytes ssid(5,(u8)op); A32 in=k==2?be:al; bool bad=false;
    if(badk>=0&&(k==1||k==2||k==4||k==6)) { Rng fr(badk+1); in=bad_el(fr,badk,in); bad=!good_point(in.data()); R.fire("el.bad"); }
    int s=1+(int)r.below(n); Bytes first; bool same_in=in==(k==2?be:al);
    for(int tr=0;tr<2;tr++) { // second try: the resource is back
      cx.c.mlock_calls=0; cx.c.mlock_failed=0; cx.c.mlock_fail_at=tr==0?(u64)fail:0; u64 draws=cx.c.draws; A32 o1,o2; memset(o1.data(),1,32); memset(o2.data(),2,32); Bytes ob(64,3), part(33,4), dl(33*n,5), cm(64,6); int ret=0; i64 l0=cx.c.locked; bool right=true; u8 q[2]={(u8)s,(u8)(s%n+1)}; Bytes res;
      switch(k) {
        case 0: { ret=sh_blind(x.data(),(u8)x.size(),o1.data(),o2.data()); A32 w; if(ret==0) right=ref::smul(w,o1,h.data())&&w==o2&&cx.c.draws>draws; break; }
        case 1: ret=sh_eval(K.data(),in.data(),o1.data()); if(same_in) right=o1==be; break;
        case 2: ret=sh_unblind(rr.data(),in.data(),o1.data()); if(same_in) right=o1==nn; break;
        case 3: ret=sh_finalize(x.data(),(u16)x.size(),nn.data(),ob.data()); right=ob==ref_final(x,nn); break;
        case 4: { ret=sh_3hash(sh.data()+33*(s-1),zs.data()+33*(s-1),in.data(),ssid.data(),5,part.data()); res=part; break; }
        case 5: ret=sh_h2g(x.data(),(u8)x.size(),o1.data()); right=o1==h; break;
        case 6: ret=sh_teval(sh.data()+33*(s-1),in.data(),s,q,2,part.data()); res=part; break;
        case 7: { ret=sh_dkg_start(n,t,cm.data(),dl.data()); vector<int> ix; vector<A32> v; for(int i=1;i<=n;i++) { A32 y; memcpy(y.data(),dl.data()+33*(i-1)+1,32); ix.push_back(i); v.push_back(y); } vector<int> bi(ix.begin(),ix.begin()+t); vector<A32> bv(v.begin(),v.begin()+t); A32 g; if(ret==0) { ref::base(g,ref::interp0(bi,bv)); right=ref::on_poly(ix,v,t)&&memcmp(g.data(),cm.data(),32)==0; } break; }
      }
      bool failed=cx.c.mlock_failed>0; if(failed) R.fire("res.mlock"); R.act(hash2(hash2(k,tr),(u64)(ret!=0))); R.h((u64)ret); R.h(hashb(o2.data(),32)); R.h(hashb(part));
      if(cx.c.locked!=l0) { R.viol("T09.locked",fmt("%s leaves %lld regions locked (code %d, lock failure %d)",names[k],(long long)(cx.c.locked-l0),ret,failed?1:0)); cx.c.locked=l0; }
      if(failed&&ret==0) R.viol("T09.ignored",fmt("%s reports success although locking memory failed",names[k]));
      if(!failed&&!bad&&ret!=0) R.viol("T09.retry",fmt("%s fails (%d) although memory can be locked%s",names[k],ret,tr?" again":""));
      if(!bad&&ret==0&&!right) R.viol("T09.wrong",fmt("%s reports success with a wrong result",names[k]));
      if(bad&&ret==0&&!failed) R.viol("T09.bad",fmt("%s accepts an invalid element",names[k]));
      if(k==4&&!bad&&tr==1&&ret==0&&same_in) { Bytes ps=part; int s2=s%n+1; Bytes q2(33); sh_3hash(sh.data()+33*(s2-1),zs.data()+33*(s2-1),in.data(),ssid.data(),5,q2.data()); ps.insert(ps.end(),q2.begin(),q2.end()); A32 w; if(sh_thmult(2,ps.data(),w.data())||w!=be) R.viol("T09.wrong","masked evaluation retried after a lock failure does not combine"); }
      if(failed) R.hit("lock_failed");
    }
    R.states.push_back(hash2(k,hash2(fail,badk)));
  }
  R.nontrivial=R.probe["lock_failed"]>0; R.sim_ms=1;
}

CheckDef toprf_checks[]={{"T01",gen_svc,exec_svc},{"T02",gen_svc,exec_svc},{"T03",gen_svc,exec_svc},{"T04",gen_t04,exec_t04},{"T05",gen_t05,exec_t05},{"T06",gen_t06,exec_t06},{"T07",gen_svc,exec_svc},{"T09",gen_t09,exec_t09},{"T10",gen_svc,exec_svc},{NULL,NULL,NULL}};
