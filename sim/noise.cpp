// Authenticated channels: several devices with registered peers, simultaneous
// setups over a hostile network, impersonators, and storage that is damaged
// between a crash and the restart.
#include "core.h"
#include "shim_noise.h"
#include <memory>
namespace {

// ---------------------------------------------------------------- an attacker's own implementation of the handshake
struct Hs {
  u8 h[64],ck[64],k[32];
  static void hash(u8*o,const Bytes&a) { crypto_generichash(o,64,a.data(),a.size(),NULL,0); }
  static void hmac(u8*o,const u8*key,const Bytes&d) { Bytes i(128,0x36),q(128,0x5c); for(int j=0;j<64;j++) { i[j]^=key[j]; q[j]^=key[j]; } i.insert(i.end(),d.begin(),d.end()); u8 t[64]; hash(t,i); q.insert(q.end(),t,t+64); hash(o,q); }
  void mixh(const u8*p,size_t n) { Bytes b(h,h+64); b.insert(b.end(),p,p+n); hash(h,b); }
  void mixk(const u8*dh,size_t n) { u8 t[64],a[64],b[64]; hmac(t,ck,Bytes(dh,dh+n)); hmac(a,t,Bytes(1,1)); Bytes x(a,a+64); x.push_back(2); hmac(b,t,x); memcpy(ck,a,64); memcpy(k,b,32); }
  Hs(const Bytes&prologue,const A32&rs) { memset(h,0,64); memcpy(h,"Noise_XK_25519_ChaChaPoly_BLAKE2b",33); memcpy(ck,h,64); memset(k,0,32); mixh(prologue.data(),prologue.size()); mixh(rs.data(),32); }
  Bytes enc(const Bytes&m,u64 nonce) { u8 n[12]={0}; memcpy(n+4,&nonce,8); Bytes c(m.size()+16); crypto_aead_chacha20poly1305_ietf_encrypt(c.data(),NULL,m.data(),m.size(),h,64,NULL,n,k); mixh(c.data(),c.size()); return c; }
  bool dec(Bytes&m,const Bytes&c,u64 nonce) { if(c.size()<16) return false; u8 n[12]={0}; memcpy(n+4,&nonce,8); m=Bytes(c.size()-16); unsigned long long l; if(crypto_aead_chacha20poly1305_ietf_decrypt(m.data(),&l,NULL,c.data(),c.size(),h,64,n,k)) return false; mixh(c.data(),c.size()); return true; }
};
static const u8 small_order[5][32]={{0},{1},
  {0xe0,0xeb,0x7a,0x7c,0x3b,0x41,0xb8,0xae,0x16,0x56,0xe3,0xfa,0xf1,0x9f,0xc4,0x6a,0xda,0x09,0x8d,0xeb,0x9c,0x32,0xb1,0xfd,0x86,0x62,0x05,0x16,0x5f,0x49,0xb8,0x00},
  {0xec,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x7f},
  {0xed,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0x7f}};

// ---------------------------------------------------------------- world
struct NCtx { seam_ctx c; NCtx(u64 seed) { memset(&c,0,sizeof c); c.clock_ms=1700000000000LL; seam_seed(&c,seed); c.fill=0xa5; } };
struct NUse { seam_ctx*old; NUse(NCtx&x) { old=seam_cur; seam_cur=&x.c; } ~NUse() { seam_cur=old; } };
struct Reg { u32 pid; string name; A32 pk; int dev; };
struct File { string name; Bytes data, old; int peer; };         // one stored item: its name is kept beside it
struct Stored { Bytes blob; A32 sk; string name; A32 key; };
struct Dev { int id; string name; A32 priv,pub,sk; Bytes prlg; void*d=NULL; vector<Reg> reg; std::unique_ptr<NCtx> cx; bool up=true; u32 maxpid=0; set<u32> pids;
  File self; vector<File> files; int boots=0; };
struct Sent { Bytes plain,wire; };
enum { R_INI=0, R_RESP=1 };
struct Sess { int id,dev,role,link; void*s=NULL; A32 addressed; u32 pid=0; string pname; int step=0; bool dead=false,gone=false,dirty=false; Bytes m1,m2,m3; int partner=-1; vector<Sent> sent; size_t next=0; int planned=0; };
struct Rec { Bytes wire,plain; int from; A32 target; Bytes prlg; Bytes ctx; A32 who; };
struct Link { int a=-1,b=-1; int ini,resp,route; u64 n[2]={0,0}; i64 last[2]={0,0}; bool broken=false; vector<Bytes> wire[2]; };

struct Net {
  const Plan&p; Result&R; string id; Rng lat,rr; vector<Dev> dev; vector<std::unique_ptr<Sess>> ss; vector<Link> links; vector<Rec> m1s,m2s,m3s; vector<Stored> dblobs,pblobs;
  i64 now=0; u64 seq=0; std::multimap<std::pair<i64,u64>,std::function<void()>> q;
  vector<Bytes> seen_wire; vector<Bytes> secrets; set<Bytes> eph; set<Bytes> nonces; bool fresh=false,heap=false;
  vector<Bytes> values; // ephemerals and storage nonces in order, for the twin run
  Net(const Plan&P,Result&r):p(P),R(r),id(P.check),lat((u64)P.get("lat",1)),rr((u64)P.get("payload",2)) { if(id=="N06") { heap=true; id=fmt("N%02d",(int)P.get("mode",1)); } }
  ~Net() { for(auto &s:ss) if(s->s) { NUse u(*dev[s->dev].cx); nz_sfree(s->s); } for(auto &d:dev) if(d.d) nz_dev_free(d.d); seam_heap_reset(); }
  void at(i64 d,std::function<void()> f) { q.insert({{now+std::max<i64>(d,0),seq++},f}); }
  void viol(const char*tag,const string&d) { if(!heap) R.viol(id+"."+tag,d); }
  // everything is closed; what was taken must have been given back
  void release() {
    for(auto &s:ss) if(s->s) { NUse u(*dev[s->dev].cx); nz_sfree(s->s); s->s=NULL; }
    for(auto &d:dev) { if(d.d) { NUse u(*d.cx); nz_dev_free(d.d); d.d=NULL; } R.h((u64)d.cx->c.held); if(d.cx->c.held) R.viol("N06.held",fmt("device %d is closed with %lld pieces of memory still held",d.id,(long long)d.cx->c.held)); }
  }
  static const char*cname(const string&s) { return s=="\x01"?NULL:s.c_str(); }
  static string shown(const string&s) { return s=="\x01"?"":s; }

  // ---- devices and their tables
  void mkdev(int i) {
    Dev d; d.id=i; Rng r(hash2((u64)p.get("keys",3),i)); r.fill(d.priv.data(),32); r.fill(d.sk.data(),32); crypto_scalarmult_base(d.pub.data(),d.priv.data());
    u64 k=r.below(6); d.name=k==0?string("\x01"):k==1?string(""):fmt("device-%d",i); if(k==5) d.name=string(1+r.below(300),(char)('a'+i));
    d.prlg=Bytes(p.get("prlg",0)); Rng pr((u64)p.get("keys",3)); pr.fill(d.prlg.data(),d.prlg.size());
    for(auto &f:p.f) if(f.kind=="cfg.prologue"&&f.get("dev")%(i64)p.get("devs",2)==i) { R.fire(f.kind); d.prlg.push_back((u8)(1+f.get("x")%255)); }
    if(p.get("samesk")) { Rng sr(5); sr.fill(d.sk.data(),32); }
    d.cx.reset(new NCtx(hash2((u64)p.get("libseed",5),i))); d.cx->c.track=heap; NUse u(*d.cx);
    d.d=nz_dev(d.prlg.data(),d.prlg.size(),cname(d.name),d.sk.data(),d.priv.data());
    secrets.push_back(Bytes(d.priv.begin(),d.priv.end())); secrets.push_back(Bytes(d.sk.begin(),d.sk.end()));
    if(!d.d) { viol("device","a device cannot be created"); return; }
    A32 a,b; nz_dev_keys(d.d,a.data(),b.data()); if(a!=d.priv||b!=d.pub) viol("device","the device does not have the given identity");
    dev.push_back(std::move(d));
  }
  string pname(int i,int j) { Rng r(hash2((u64)p.get("keys",3),1000+i*16+j)); u64 k=r.below(7); return k==0?string("\x01"):k==1?string(""):k==2?string("same"):k==3?string(1+r.below(200),'n'):fmt("peer-%d",j); }
  void table_ok(Dev&d,const char*when) {
    char nm[512]; A32 pk; u32 g;
    for(auto &e:d.reg) {
      if(!nz_by_id(d.d,e.pid,pk.data(),nm,sizeof nm,&g)||g!=e.pid||pk!=e.pk||shown(e.name)!=nm) viol("table",fmt("registered peer %u of device %d cannot be found by its number %s",e.pid,d.id,when));
      if(!nz_by_static(d.d,e.pk.data(),pk.data(),nm,sizeof nm,&g)||g!=e.pid||pk!=e.pk||shown(e.name)!=nm) viol("table",fmt("registered peer %u of device %d cannot be found by its key %s",e.pid,d.id,when));
    }
    for(auto &o:dev) { bool r=false; for(auto &e:d.reg) if(e.pk==o.pub) r=true; if(!r&&nz_by_static(d.d,o.pub.data(),pk.data(),nm,sizeof nm,&g)) viol("table",fmt("device %d still knows device %d %s",d.id,o.id,when)); }
    for(u32 x:d.pids) { bool r=false; for(auto &e:d.reg) if(e.pid==x) r=true; if(!r&&nz_by_id(d.d,x,pk.data(),nm,sizeof nm,&g)) viol("table",fmt("peer number %u of device %d is still in use %s",x,d.id,when)); }
    if(nz_by_id(d.d,0,pk.data(),nm,sizeof nm,&g)) viol("table","number 0 designates a peer");
  }
  Reg*find(Dev&d,const A32&pk) { for(auto &e:d.reg) if(e.pk==pk) return &e; return NULL; }
  void reg_add(int i,int j,bool store=true) {
    Dev&d=dev[i]; if(!d.d) return; NUse u(*d.cx); string nm=pname(i,j); bool dup=find(d,dev[j].pub)!=NULL;
    u32 pid=nz_add(d.d,cname(nm),dev[j].pub.data()); R.act(hash2(20,i*16+j)); R.h(pid);
    if(dup) { if(pid) viol("table",fmt("device %d registers device %d a second time",i,j)); table_ok(d,"after a refused registration"); return; }
    if(!pid) { viol("table",fmt("device %d cannot register device %d",i,j)); return; }
    if(d.pids.count(pid)) viol("table",fmt("device %d uses peer number %u again",i,pid));
    d.pids.insert(pid); d.reg.push_back({pid,nm,dev[j].pub,j}); table_ok(d,"after registration"); if(store) store_peer(d,d.reg.back());
  }
  void reg_remove(int i,int j) {
    Dev&d=dev[i]; if(!d.d) return; NUse u(*d.cx); Reg*e=find(d,dev[j].pub); R.act(hash2(21,i*16+j));
    nz_remove(d.d,e?e->pid:(u32)(1000+j)); if(e) { d.reg.erase(d.reg.begin()+(e-&d.reg[0])); for(size_t k=0;k<d.files.size();k++) if(d.files[k].peer==j) { d.files.erase(d.files.begin()+k); break; } R.fire("reg.remove"); }
    table_ok(d,"after a removal");
  }
  // many parties nobody ever hears of, some of whom are forgotten again
  void crowd(Dev&d,i64 n,i64 keep) {
    Rng r(hash2((u64)p.get("keys",3),555)); NUse u(*d.cx); R.fire("reg.crowd");
    for(i64 k=0;k<n&&R.v.empty();k++) { A32 pk; r.fill(pk.data(),32); string nm=fmt("stranger %lld",(long long)k); u32 pid=nz_add(d.d,cname(nm),pk.data());
      if(!pid) { viol("table",fmt("device %d cannot register stranger %lld",d.id,(long long)k)); return; }
      if(d.pids.count(pid)) { viol("table",fmt("device %d uses peer number %u again",d.id,pid)); return; }
      d.pids.insert(pid); d.reg.push_back({pid,nm,pk,-1});
      if((i64)d.reg.size()>keep) { size_t x=r.below(d.reg.size()); nz_remove(d.d,d.reg[x].pid); d.reg.erase(d.reg.begin()+x); } }
    table_ok(d,"with many parties");
  }
  // ---- storage
  void nonce(const Bytes&b) { Bytes n(b.begin(),b.begin()+std::min<size_t>(8,b.size())); values.push_back(n); if(!nonces.insert(n).second&&id=="N05") viol("nonce","two stored items are encrypted with the same number"); seen_wire.push_back(b); }
  void store_self(Dev&d) { if(id!="N03"&&id!="N05") return; NUse u(*d.cx); Bytes b(256); b.resize(nz_dev_store(d.d,b.data(),b.size())); R.h(hashb(b)); nonce(b); dblobs.push_back({b,d.sk,d.name,d.priv}); d.self.old=d.self.data; d.self.data=b; d.self.name=d.name; }
  void store_peer(Dev&d,const Reg&e) {
    if(id!="N03"&&id!="N05") return; NUse u(*d.cx); Bytes b(256); b.resize(nz_peer_store(d.d,e.pid,b.data(),b.size())); R.h(hashb(b)); nonce(b); pblobs.push_back({b,d.sk,e.name,e.pk});
    for(auto &f:d.files) if(f.peer==e.dev) { f.old=f.data; f.data=b; f.name=e.name; return; }
    d.files.push_back({e.name,b,Bytes(),e.dev});
  }
  void crash(int i,i64 down) {
    Dev&d=dev[i]; if(!d.d||!d.up) return; R.fire("node.crash"); R.act(hash2(22,i));
    NUse u(*d.cx); for(auto &s:ss) if(s->dev==i&&s->s) { nz_sfree(s->s); s->s=NULL; s->gone=true; if(s->link>=0) links[s->link].broken=true; }
    nz_dev_free(d.d); d.d=NULL; d.up=false; at(down,[=]{ boot(i); });
  }
  void damage(Dev&d) {
    for(auto &f:p.f) { if(f.kind.compare(0,5,"disk.")!=0||f.get("dev")%(i64)dev.size()!=d.id||f.get("boot")!=d.boots) continue;
      File*x=f.get("file")==0?&d.self:d.files.empty()?NULL:&d.files[(f.get("file")-1)%d.files.size()]; if(!x||x->data.empty()) continue; Bytes before=x->data;
      if(f.kind=="disk.flip") x->data[f.get("bit")/8%x->data.size()]^=(u8)(1<<(f.get("bit")%8));
      else if(f.kind=="disk.trunc") { size_t l=(size_t)f.get("len")%x->data.size(); if(x==&d.self) for(size_t k=l;k<x->data.size();k++) x->data[k]=0; else x->data.resize(l); }
      else if(f.kind=="disk.extend") { if(x!=&d.self) x->data.push_back((u8)f.get("len")); }
      else if(f.kind=="disk.zero") { size_t a=(size_t)f.get("len")%x->data.size(); for(size_t k=a;k<x->data.size()&&k<a+16;k++) x->data[k]=0; }
      else if(f.kind=="disk.torn") { if(x->old.size()==x->data.size()) { size_t l=(size_t)f.get("len")%(x->data.size()+1); for(size_t k=l;k<x->data.size();k++) x->data[k]=x->old[k]; } }
      else if(f.kind=="disk.stale") { if(!x->old.empty()) x->data=x->old; }
      else if(f.kind=="disk.swap") { if(x!=&d.self&&d.files.size()>1) { File&y=d.files[f.get("len")%d.files.size()]; std::swap(x->data,y.data); } else if(x==&d.self) { Dev&o=dev[f.get("len")%dev.size()]; if(!o.self.data.empty()) x->data=o.self.data; } }
      else if(f.kind=="disk.rename") x->name=x->name=="\x01"||x->name.empty()?"x":f.get("len")%2?x->name+"x":x->name.substr(0,x->name.size()-1);
      if(x->data!=before||f.kind=="disk.rename") R.fire(f.kind);
    }
  }
  void boot(int i) {
    Dev&d=dev[i]; damage(d); d.boots++; R.act(hash2(23,i)); NUse u(*d.cx); A32 sk=d.sk; bool wrong=false;
    for(auto &f:p.f) if(f.kind=="disk.wrongkey"&&f.get("dev")%(i64)dev.size()==i&&f.get("boot")==d.boots-1) { R.fire(f.kind); wrong=true; sk[f.get("len")%32]^=(u8)(1<<(f.get("bit")%8)); }
    const Stored*ok=NULL; for(auto &s:dblobs) if(s.blob==d.self.data&&s.sk==sk&&shown(s.name)==shown(d.self.name)) ok=&s;
    d.reg.clear(); d.pids.clear();
    void*n=nz_dev_load(d.prlg.data(),d.prlg.size(),cname(d.self.name),sk.data(),d.self.data.data()); R.h(n!=NULL);
    if(n&&!ok) viol("load.self",fmt("device %d loads a damaged identity",i));
    if(!n&&ok) viol("lost.self",fmt("device %d cannot load its intact identity",i));
    if(n&&ok) { A32 a,b,w; crypto_scalarmult_base(w.data(),ok->key.data()); nz_dev_keys(n,a.data(),b.data()); char nm[512]; nz_dev_name(n,nm,sizeof nm); if(a!=ok->key||b!=w||shown(d.self.name)!=nm) viol("differs.self",fmt("device %d comes back with another identity",i)); R.hit("identity_restored"); if(ok->key!=d.priv) { R.hit("other_identity"); nz_dev_free(n); n=NULL; } }
    if(n&&!ok) { nz_dev_free(n); n=NULL; }
    bool restored=n!=NULL; if(!n) R.hit("identity_refused");
    if(wrong&&restored) { nz_dev_free(n); n=NULL; restored=false; }
    if(!n) { n=nz_dev(d.prlg.data(),d.prlg.size(),cname(d.name),d.sk.data(),d.priv.data()); d.self.data.clear(); d.self.name=d.name; sk=d.sk; wrong=false; } // identity comes from a backup
    d.d=n; d.up=true; if(!n) return;
    vector<File> fs=d.files; vector<int> lost;
    if(!wrong) for(auto &f:fs) {
      const Stored*ok=NULL; for(auto &s:pblobs) if(s.blob==f.data&&s.sk==sk&&shown(s.name)==shown(f.name)) ok=&s; bool dup=ok&&find(d,ok->key);
      u32 pid=nz_peer_load(d.d,cname(f.name),f.data.data(),f.data.size()); R.h(pid);
      if(pid&&!ok) { viol("load.peer",fmt("device %d loads a damaged peer",i)); break; }
      if(pid&&dup) { viol("load.twice",fmt("device %d loads one peer twice",i)); break; }
      if(!pid&&ok&&!dup) viol("lost.peer",fmt("device %d cannot load an intact peer",i));
      if(pid) { A32 pk; char nm[512]; u32 g=0; if(!nz_by_id(d.d,pid,pk.data(),nm,sizeof nm,&g)||pk!=ok->key||shown(f.name)!=nm) viol("differs.peer",fmt("device %d loads another peer than was stored",i));
        if(d.pids.count(pid)) viol("table",fmt("device %d uses peer number %u again",i,pid)); int who=-1; for(auto &o:dev) if(o.pub==ok->key) who=o.id; d.pids.insert(pid); d.reg.push_back({pid,f.name,ok->key,who}); R.hit("peer_restored"); }
      else { R.hit("peer_refused"); lost.push_back(f.peer); }
    }
    table_ok(d,"after a restart"); d.files.clear(); store_self(d); vector<Reg> cp=d.reg; for(auto &e:cp) store_peer(d,e);
    for(auto &f:fs) if(!find(d,dev[f.peer].pub)) reg_add(i,f.peer);
  }
  // ---- sessions
  Sess*mksess(int dv,int role,int link) { ss.emplace_back(new Sess()); Sess*s=ss.back().get(); s->id=(int)ss.size()-1; s->dev=dv; s->role=role; s->link=link; return s; }
  Bytes payload(bool hs) { u64 k=rr.below(20); size_t l=k<4?0:k<14?rr.below(80):k<18?rr.below(1500):k==18?rr.below(20000):65000+rr.below(1200); if(hs&&rr.chance(1,2)) l=0; Bytes b(l); rr.fill(b.data(),l); return b; }
  static int conf_at(const Sess&s) { return s.step==0?2:s.step==1?1:5; }
  static bool conf_ok(int req,int have) { return req==0||(req==1&&(have==1||have>=3))||(req>=2&&have>=req); }
  // one message written by a session; returns false if nothing came out
  bool write(Sess&s,const Bytes&m,Bytes&wire) {
    Dev&d=dev[s.dev]; NUse u(*d.cx); int have=conf_at(s); size_t want=0; bool okl=nz_next_len(s.s,m.size(),&want);
    if(id=="N04"&&rr.chance(1,2)&&!m.empty()) { // asking for more protection than this point offers, or less
      int req=(int)rr.below(6); if(!conf_ok(req,have)) { u8*o=NULL; size_t l=0; int rc=nz_write(s.s,req,m.data(),m.size(),&o,&l); R.act(hash2(hash2(30,s.id),rc)); R.hit("level_refused"); 
        if(rc==NZ_OK) { viol("level.sent",fmt("message %d is sent although protection %d was requested and only %d is reached",s.step,req,have)); free(o); s.dead=true; return false; }
        if(o||l) viol("level.leak","a refused message was written all the same"); } }
    u8*o=NULL; size_t l=0; int req=0; if(id=="N04") { for(req=(int)rr.below(6);!conf_ok(req,have);) req=(int)rr.below(6); }
    int rc=nz_write(s.s,req,m.data(),m.size(),&o,&l);
    R.act(hash2(hash2(1,s.id),hash2(s.step,rc)));
    if(rc!=NZ_OK) { viol("write",fmt("session %d cannot write message %d of %zu bytes (%d)",s.id,s.step,m.size(),rc)); s.dead=true; return false; }
    wire=Bytes(o,o+l); free(o); if(!okl||want!=l) viol("length",fmt("announced length %zu, written %zu",want,l));
    R.h(hashb(wire)); seen_wire.push_back(wire);
    if(fresh&&m.size()>=16) secrets.push_back(m);
    return true;
  }
  void ephemeral(const Bytes&w) { Bytes e(w.begin(),w.begin()+32); values.push_back(e); if(!eph.insert(e).second&&id=="N05") viol("ephemeral","two setups use the same ephemeral key"); }
  void send(Sess&s,const Bytes&w) { if(s.link>=0) post(s.link,s.role==R_INI?0:1,w); }
  // what a session says about itself
  void about(Sess&s) {
    Dev&d=dev[s.dev]; char nm[512]=""; nz_sname(s.s,nm,sizeof nm); if(shown(d.name)!=nm) viol("identity",fmt("session %d calls its own device '%s' instead of '%s'",s.id,nm,shown(d.name).c_str()));
    for(auto &o:ss) if(o.get()!=&s&&o->s&&o->dev==s.dev&&nz_sid(o->s)==nz_sid(s.s)) viol("number",fmt("sessions %d and %d of device %d have the same number",s.id,o->id,s.dev));
    bool top=!s.dead&&s.step==3&&(s.role==R_RESP||s.next>0); if(nz_max(s.s)!=(int)top) viol("level.top",fmt("%s session %d %s the highest protection after %d setup and %zu received messages",s.role==R_INI?"initiating":"responding",s.id,top?"denies":"claims",s.step,s.next));
  }
  void established(Sess&s) {
    Dev&d=dev[s.dev]; NUse u(*d.cx); R.hit("established"); R.act(hash2(2,s.id));
    if(nz_status(s.s)!=2) viol("status",fmt("session %d is not ready after the last setup message",s.id));
    u8 h[64]; nz_hash(s.s,h); R.h(hashb(h,64));
    about(s); for(auto &o:ss) if(o.get()!=&s&&o->s&&o->step>=3&&!o->dead&&o->id!=s.partner&&o->partner!=s.id) { u8 g[64]; nz_hash(o->s,g); if(!memcmp(g,h,64)) viol("hash",fmt("different channels (sessions %d and %d) have the same hash",s.id,o->id)); }
    if(s.partner>=0) { Sess&o=*ss[s.partner]; if(o.s&&o.step>=3) { u8 g[64]; nz_hash(o.s,g); if(memcmp(h,g,64)) viol("hash",fmt("the two ends of a channel (sessions %d and %d) disagree about its hash",s.id,o.id)); R.hit("pairs"); } }
    char nm[512]=""; u32 pid=nz_peer_id(s.s); bool kn=nz_peer_name(s.s,nm,sizeof nm);
    if(pid!=s.pid||!kn||shown(s.pname)!=nm) viol("identity",fmt("session %d names its partner %u '%s' instead of %u '%s'",s.id,pid,nm,s.pid,shown(s.pname).c_str()));
  }
  void step_write(Sess&s) { // a setup message is due
    Bytes m=payload(true),w; if(!write(s,m,w)) return;
    if(s.step==0) { s.m1=w; m1s.push_back({w,m,s.id,s.addressed,dev[s.dev].prlg,Bytes(),dev[s.dev].pub}); ephemeral(w); s.step=1; }
    else if(s.step==1) { s.m2=w; m2s.push_back({w,m,s.id,dev[s.dev].pub,Bytes(),s.m1,dev[s.dev].pub}); ephemeral(w); s.step=2; }
    else { s.m3=w; m3s.push_back({w,m,s.id,s.addressed,Bytes(),s.m2,dev[s.dev].pub}); s.step=3; established(s); }
    if(s.step<3) about(s);
    send(s,w); if(s.step==3) chatter(s);
  }
  void chatter(Sess&s) { for(int i=0;i<s.planned;i++) { int k=s.id; at(1+(i64)lat.below(300),[=]{ talk(*ss[k]); }); } }
  void talk(Sess&s) { if(!s.s||s.dead||s.step<3) return; Bytes m=payload(false),w; if(!write(s,m,w)) return; s.sent.push_back({m,w}); { NUse u(*dev[s.dev].cx); about(s); } send(s,w); }
  // very many short messages in one direction, so that counters pass two bytes; a few of them come again later
  void burst(Sess&s,Sess&o) {
    u64 n=(u64)p.get("burst"); vector<Bytes> old; R.hit("burst");
    for(u64 i=0;i<n;i++) {
      u8 m[3]={(u8)i,(u8)(i>>8),(u8)(i>>16)}; u8*w=NULL,*g=NULL; size_t wl=0,gl=0; int rc;
      { NUse u(*dev[s.dev].cx); rc=nz_write(s.s,5,m,3,&w,&wl); }
      if(rc!=NZ_OK) { viol("write",fmt("session %d cannot write message %llu of many",s.id,(unsigned long long)i)); return; }
      Bytes wire(w,w+wl); free(w); if(old.size()<3000) old.push_back(wire);
      if(i>=256&&((i&(i-1))==0||i==65537)) for(u64 k:{(u64)0,(u64)1,i-256,i-65536}) if(k<old.size()) { NUse u(*dev[o.dev].cx); rc=nz_read(o.s,2,old[k].data(),old[k].size(),&g,&gl); if(g) free(g); g=NULL; R.hit("old_tried");
        if(rc==NZ_OK) { viol("accepted",fmt("session %d accepts message %llu again as message %llu",o.id,(unsigned long long)k,(unsigned long long)i)); return; } }
      { NUse u(*dev[o.dev].cx); rc=nz_read(o.s,2,wire.data(),wire.size(),&g,&gl); }
      bool same=rc==NZ_OK&&gl==3&&!memcmp(g,m,3); if(g) free(g);
      if(!same) { viol("refused",fmt("message %llu of many in a row does not arrive at session %d",(unsigned long long)i,o.id)); return; }
      if(i%4096==0) R.h(hashb(wire));
    }
  }
  // delivery of some bytes to a session; the verdict is known beforehand
  void recv(Sess&s,const Bytes&w,bool judge=true) {
    if(!s.s) { R.hit("lost_at_closed"); return; }
    Dev&d=dev[s.dev]; NUse u(*d.cx); const Rec*rec=NULL; bool exp=false; Bytes want; int auth=2; int st=nz_status(s.s);
    if(!s.dead) {
      if(s.role==R_RESP&&s.step==0) { for(auto &r:m1s) if(r.wire==w&&r.target==d.pub&&r.prlg==d.prlg) rec=&r; auth=0; }
      else if(s.role==R_INI&&s.step==1) { for(auto &r:m2s) if(r.wire==w&&r.target==s.addressed&&r.ctx==s.m1) rec=&r; }
      else if(s.role==R_RESP&&s.step==2) { for(auto &r:m3s) if(r.wire==w&&r.ctx==s.m2&&r.target==d.pub&&find(d,r.who)) rec=&r; }
      else if(s.step==3&&s.partner>=0&&ss[s.partner]->sent.size()>s.next&&ss[s.partner]->sent[s.next].wire==w) { exp=true; want=ss[s.partner]->sent[s.next].plain; }
      if(rec) { exp=true; want=rec->plain; }
      bool wr=(s.role==R_INI&&(s.step==0||s.step==2))||(s.role==R_RESP&&s.step==1);
      int ms=s.step==3?2:wr?1:0; if(st!=ms) viol("status",fmt("session %d says %d, expected %d",s.id,st,ms));
    }
    int req=2; if(s.step<3) req=auth; if(id=="N04"&&exp) req=(int)rr.below(3);
    int how=-1,level=-1; if(id=="N04"&&exp) { how=(int)rr.below(4); if(how>1) how=-1; if(how==1) req=2; if(how==0) req=0; }
    u8*o=NULL; size_t l=0; int rc=how<0?nz_read(s.s,req,w.data(),w.size(),&o,&l):nz_read2(s.s,how,w.data(),w.size(),&o,&l,&level); Bytes got(o,o+l); if(o) free(o);
    R.act(hash2(hash2(3,s.id),hash2(s.step,rc))); R.h(hashb(got)); R.states.push_back(hash2(hash2(s.role,s.step),hash2(rc,hash2(s.dead,std::min<size_t>(s.next,6)))));
    bool acc=rc==NZ_OK||rc==NZ_LEVEL;
    static const char*nm[]={"first","second","third"}; string what=s.step<3?fmt("%s setup message",nm[s.step]):string("message");
    if(!judge) { R.hit(acc?"control_accepted":"control_refused"); if(!acc) s.dead=true; return; }
    if(acc&&!exp) { viol(s.step<3?"setup.accepted":"accepted",fmt("%s session %d accepts a %s that its partner did not send at this point (%zu bytes%s)",s.role==R_INI?"initiating":"responding",s.id,what.c_str(),w.size(),s.dead?", setup had failed":"")); s.dead=true; return; }
    if(!acc&&exp) { viol(s.step<3?"setup.refused":"refused",fmt("%s session %d refuses the genuine %s (%d)",s.role==R_INI?"initiating":"responding",s.id,what.c_str(),rc)); s.dead=true; return; }
    if(!acc) { R.hit(s.step<3?"setup_refused":"refused"); if(s.step<3) { s.dirty=true; if(rc==NZ_STUCK) s.dead=true; } return; }
    if(id=="N04") { bool ok=want.empty()||req<=auth; if(ok!=(rc==NZ_OK)) viol("level.read",fmt("%s of authentication %d is %s a reader that requests %d",what.c_str(),auth,rc==NZ_OK?"given to":"withheld from",req)); if(rc==NZ_LEVEL) R.hit("level_withheld"); }
    if(how==0&&level!=auth) viol("level.told",fmt("%s of authentication %d is said to have %d",what.c_str(),auth,level));
    if(rc==NZ_OK&&got!=want) viol("content",fmt("session %d receives other bytes (%zu) than were sent (%zu)",s.id,got.size(),want.size()));
    if(s.step==3) { s.next++; R.hit("delivered"); about(s); return; }
    if(s.step==0) { s.m1=w; s.step=1; int k=s.id; at(1+(i64)lat.below(40),[=]{ Sess&x=*ss[k]; if(x.s&&!x.dead&&x.step==1&&x.role==R_RESP) step_write(x); }); }
    else if(s.step==1) { s.m2=w; s.partner=rec->from; s.step=2; int k=s.id; at(1+(i64)lat.below(40),[=]{ Sess&x=*ss[k]; if(x.s&&!x.dead&&x.step==2) step_write(x); }); }
    else { s.m3=w; s.partner=rec->from; Reg*e=find(d,rec->who); s.pid=e->pid; s.pname=e->name; s.step=3; established(s); chatter(s); }
  }
  // ---- the network
  void deliver(int l,int dir,const Bytes&w) { Link&L=links[l]; int k=dir==0?L.b:L.a; if(k<0) return; recv(*ss[k],w); }
  void post(int l,int dir,Bytes w) {
    Link&L=links[l]; u64 k=L.n[dir]++; L.wire[dir].push_back(w); i64 d=1+(i64)lat.below((u64)p.get("maxlat",30)); bool fifo=true; bool drop=false;
    for(auto &f:p.f) { if(f.kind.compare(0,4,"net.")!=0||f.get("link")%(i64)links.size()!=l||f.get("dir")!=dir||(u64)f.get("msg")!=k) continue; const string&K=f.kind; i64 x=f.get("x"),y=f.get("y");
      if(K=="net.drop") { drop=true; R.fire(K); }
      else if(K=="net.flip") { if(w.empty()) continue; w[(size_t)(x/8)%w.size()]^=(u8)(1<<(x%8)); R.fire(K); }
      else if(K=="net.trunc") { if(w.empty()) continue; w.resize((size_t)x%w.size()); R.fire(K); }
      else if(K=="net.extend") { Rng r((u64)x); Bytes e(1+r.below(40)); r.fill(e.data(),e.size()); w.insert(w.end(),e.begin(),e.end()); R.fire(K); }
      else if(K=="net.garbage") { Rng r((u64)x); Bytes e(y%3==0?w.size():r.below(200)); r.fill(e.data(),e.size()); Bytes c=e; at(d+x%50,[=]{ deliver(l,dir,c); }); R.fire(K); }
      else if(K=="net.dup") { Bytes c=w; at(d+x%400,[=]{ deliver(l,dir,c); }); R.fire(K); }
      else if(K=="net.delay") { d+=x%500; fifo=false; R.fire(K); }
      else if(K=="net.reflect") { Bytes c=w; at(d+x%100,[=]{ deliver(l,1-dir,c); }); R.fire(K); }
      else if(K=="net.cross") { Bytes c=w; int o=(int)(x%(i64)links.size()); if(o==l) o=(o+1)%(int)links.size(); int od=(int)(y%2); if(o!=l) { at(d+y%60,[=]{ deliver(o,od,c); }); R.fire(K); if(y%3==0) drop=true; } }
      else if(K=="net.replay") { auto &h=L.wire[dir]; Bytes c=h[(size_t)x%h.size()]; at(d+y%200,[=]{ deliver(l,dir,c); }); R.fire(K); }
      else if(K=="net.splice") { auto &h=L.wire[1-dir]; if(h.empty()) continue; const Bytes&o=h[(size_t)x%h.size()]; Bytes c=w; size_t cut=(size_t)y%(c.size()+1); for(size_t i=cut;i<c.size()&&i<o.size();i++) c[i]=o[i]; if(c==w) continue; w=c; R.fire(K); }
    }
    if(drop) return;
    if(fifo) { i64 t=std::max(now+d,L.last[dir]); L.last[dir]=t; d=t-now; }
    Bytes c=w; at(d,[=]{ deliver(l,dir,c); });
    if(dir==0&&k==0) for(auto &f:p.f) if(f.kind=="imp.resp"&&f.get("link")%(i64)links.size()==l) { Bytes first=w; int v=(int)f.get("x"); at(1,[=]{ forged_answer(l,first,v); }); }
  }
  void open(int l) {
    Link&L=links[l]; Dev&d=dev[L.ini]; if(!d.d||!dev[L.route].d) { L.broken=true; return; } NUse u(*d.cx);
    Reg*e=find(d,dev[L.resp].pub); u32 pid=e?e->pid:(u32)(e?0:500+l); void*h=nz_ini(d.d,pid); R.act(hash2(hash2(4,l),h!=NULL));
    if(h&&!e) { viol("unknown",fmt("device %d starts a channel with an unregistered party",L.ini)); nz_sfree(h); return; }
    if(!h&&e) { viol("start",fmt("device %d cannot start a channel with a registered party",L.ini)); return; }
    if(!h) { R.hit("unregistered_target"); L.broken=true; return; }
    Sess*s=mksess(L.ini,R_INI,l); s->s=h; s->addressed=dev[L.resp].pub; s->pid=e->pid; s->pname=e->name; s->planned=(int)p.get("chat",2); L.a=s->id;
    { NUse v(*dev[L.route].cx); Sess*r=mksess(L.route,R_RESP,l); r->s=nz_resp(dev[L.route].d); r->planned=(int)p.get("chat",2); L.b=r->id; if(!r->s) { viol("start","a responding session cannot be created"); return; } }
    if(L.route!=L.resp) R.fire("net.redirect");
    step_write(*ss[L.a]);
  }
  // ---- impersonation with an independent implementation
  void forged_answer(int l,const Bytes&m1,int v) { // someone without the responder's key answers
    Link&L=links[l]; if(L.a<0||!ss[L.a]->s||m1.size()<48) return; Sess&s=*ss[L.a]; R.fire("imp.resp"); Rng r(hash2((u64)p.get("keys",3),900+l)); Hs h(dev[s.dev].prlg,s.addressed); u8 zero[32]={0},ep[32],epub[32],dh[32]; r.fill(ep,32); crypto_scalarmult_base(epub,ep);
    h.mixh(m1.data(),32); if(v%4==1) h.mixk(zero,32); else if(v%4==2) { if(crypto_scalarmult(dh,ep,m1.data())==0) h.mixk(dh,32); } else if(v%4==3) { if(crypto_scalarmult(dh,dev[L.route].priv.data(),m1.data())==0&&dev[L.route].pub!=s.addressed) h.mixk(dh,32); }
    h.mixh(m1.data()+32,m1.size()-32); const u8*e=v%5==4?small_order[v%3]:epub; h.mixh(e,32); if(e==epub) { if(crypto_scalarmult(dh,ep,m1.data())==0) h.mixk(dh,32); } else h.mixk(zero,32);
    Bytes w(e,e+32),c=h.enc(Bytes(v%2?5:0,7),0); w.insert(w.end(),c.begin(),c.end()); seen_wire.push_back(w); recv(s,w);
  }
  void forge(const Fault&f) { // someone without the claimed key starts a channel
    int b=(int)(f.get("dev")%(i64)dev.size()),vic=(int)(f.get("peer")%(i64)dev.size()),v=(int)f.get("x"); Dev&B=dev[b]; if(!B.d) return; Dev&V=dev[vic]; R.fire("imp.ini"); NUse u(*B.cx);
    Sess*s=mksess(b,R_RESP,-1); s->s=nz_resp(B.d); if(!s->s) return; Rng r(hash2((u64)p.get("keys",3),700+v)); u8 ep[32],epub[32],dh[32],zero[32]={0}; r.fill(ep,32); crypto_scalarmult_base(epub,ep);
    Hs h(B.prlg,B.pub); const u8*e=epub; if(v%12==5) e=small_order[(v/12)%5]; h.mixh(e,32);
    if(e==epub) { if(crypto_scalarmult(dh,ep,B.pub.data())) return; h.mixk(dh,32); } else h.mixk(zero,32);
    Bytes m(v%3?9:0,3),w(e,e+32); if(v%12==10) { Hs g(B.prlg,B.pub); g.mixh(e,32); Bytes c=g.enc(m,0); w.insert(w.end(),c.begin(),c.end()); } else { Bytes c=h.enc(m,0); w.insert(w.end(),c.begin(),c.end()); if(e==epub) m1s.push_back({w,m,-1,B.pub,B.prlg,Bytes(),V.pub}); }
    recv(*s,w); if(s->step!=1) return;
    step_write(*s); if(s->step!=2) return; const Bytes m2=s->m2; if(m2.size()<48) return;
    h.mixh(m2.data(),32); if(crypto_scalarmult(dh,ep,m2.data())) return; h.mixk(dh,32); Bytes pl; if(!h.dec(pl,Bytes(m2.begin()+32,m2.end()),0)) { R.hit("attacker_lost"); return; }
    Bytes claim(V.pub.begin(),V.pub.end()); if(v%12==4) claim=Bytes(small_order[(v/12)%5],small_order[(v/12)%5]+32); u8 ap[32]; r.fill(ap,32);
    if(v%12==9) claim[31]^=0x80;
    Bytes c1=h.enc(claim,1); bool ctl=v%12==0; bool ok=true;
    if(ctl) ok=crypto_scalarmult(dh,V.priv.data(),m2.data())==0; else if(v%12==1||v%12==4||v%12==10) ok=crypto_scalarmult(dh,ap,m2.data())==0; else if(v%12==2) ok=crypto_scalarmult(dh,ep,m2.data())==0; else if(v%12==7) memset(dh,0,32); else if(v%12==8) ok=crypto_scalarmult(dh,ep,B.pub.data())==0; else if(v%12==9) ok=crypto_scalarmult(dh,V.priv.data(),m2.data())==0; else if(v%12==11) memcpy(dh,m2.data(),32);
    if(!ok) return; u64 nonce=0; if(v%12!=3&&v%12!=6) h.mixk(dh,32); else nonce=v%12==3?0:2; if(v%12==4) h.mixk(zero,32);
    Bytes c2=h.enc(Bytes(v%2?4:0,8),nonce); w=c1; w.insert(w.end(),c2.begin(),c2.end()); seen_wire.push_back(w); recv(*s,w,!ctl);
  }
  // ---- a registered party that uses another implementation of the same protocol
  static Bytes seal(const u8*k,u64 nonce,const Bytes&m) { u8 n[12]={0}; memcpy(n+4,&nonce,8); Bytes c(m.size()+16); crypto_aead_chacha20poly1305_ietf_encrypt(c.data(),NULL,m.data(),m.size(),NULL,0,NULL,n,k); return c; }
  static bool unseal(const u8*k,u64 nonce,const Bytes&c,Bytes&m) { if(c.size()<16) return false; u8 n[12]={0}; memcpy(n+4,&nonce,8); m=Bytes(c.size()-16); unsigned long long l; return crypto_aead_chacha20poly1305_ietf_decrypt(m.data(),&l,NULL,c.data(),c.size(),NULL,0,n,k)==0; }
  void foreign(const Fault&f) {
    int b=(int)(f.get("dev")%(i64)dev.size()),o=(int)(f.get("peer")%(i64)dev.size()); Dev&B=dev[b]; if(!B.d) return; Dev&V=dev[o]; R.fire("peer.foreign"); NUse u(*B.cx);
    Rng r(hash2((u64)p.get("keys",3),(u64)f.get("x"))); u8 ep[32],epub[32],dh[32]; r.fill(ep,32); crypto_scalarmult_base(epub,ep); Sess*s; bool ini=f.get("x")%2; Reg*e=find(B,V.pub);
    auto some=[&]{ Bytes m(r.chance(1,3)?0:r.below(60)); r.fill(m.data(),m.size()); return m; };
    Hs h(B.prlg,ini?B.pub:V.pub); Bytes m,w,c,pl;
    if(ini) { // it starts the channel
      s=mksess(b,R_RESP,-1); s->s=nz_resp(B.d); if(!s->s) return;
      h.mixh(epub,32); if(crypto_scalarmult(dh,ep,B.pub.data())) return; h.mixk(dh,32); m=some(); c=h.enc(m,0); w=Bytes(epub,epub+32); w.insert(w.end(),c.begin(),c.end()); m1s.push_back({w,m,-1,B.pub,B.prlg,Bytes(),V.pub});
      recv(*s,w); if(s->step!=1||s->dead) return;
      step_write(*s); if(s->step!=2) return; const Bytes m2=s->m2; if(m2.size()<48) { viol("foreign","the second setup message is too short"); return; }
      h.mixh(m2.data(),32); if(crypto_scalarmult(dh,ep,m2.data())) return; h.mixk(dh,32); if(!h.dec(pl,Bytes(m2.begin()+32,m2.end()),0)||pl!=m2s.back().plain) { viol("foreign","the second setup message is not that of the protocol"); return; }
      c=h.enc(Bytes(V.pub.begin(),V.pub.end()),1); if(crypto_scalarmult(dh,V.priv.data(),m2.data())) return; h.mixk(dh,32); m=some(); w=h.enc(m,0); w.insert(w.begin(),c.begin(),c.end()); m3s.push_back({w,m,-1,B.pub,Bytes(),m2,V.pub});
      recv(*s,w); if(s->step!=3||s->dead) return;
    } else {
      if(!e) return; s=mksess(b,R_INI,-1); s->s=nz_ini(B.d,e->pid); if(!s->s) { viol("start",fmt("device %d cannot start a channel with a registered party",b)); return; } s->addressed=V.pub; s->pid=e->pid; s->pname=e->name;
      step_write(*s); if(s->step!=1) return; const Bytes m1=s->m1; if(m1.size()<48) { viol("foreign","the first setup message is too short"); return; }
      h.mixh(m1.data(),32); if(crypto_scalarmult(dh,V.priv.data(),m1.data())) return; h.mixk(dh,32); if(!h.dec(pl,Bytes(m1.begin()+32,m1.end()),0)||pl!=m1s.back().plain) { viol("foreign","the first setup message is not that of the protocol"); return; }
      h.mixh(epub,32); if(crypto_scalarmult(dh,ep,m1.data())) return; h.mixk(dh,32); m=some(); c=h.enc(m,0); w=Bytes(epub,epub+32); w.insert(w.end(),c.begin(),c.end()); m2s.push_back({w,m,-1,V.pub,Bytes(),m1,V.pub});
      recv(*s,w); if(s->step!=2||s->dead) return;
      step_write(*s); if(s->step!=3) return; const Bytes m3=s->m3; if(m3.size()<64) { viol("foreign","the third setup message is too short"); return; }
      if(!h.dec(pl,Bytes(m3.begin(),m3.begin()+48),1)||pl!=Bytes(B.pub.begin(),B.pub.end())) { viol("foreign","the third setup message does not carry the sender's key"); return; }
      if(crypto_scalarmult(dh,ep,B.pub.data())) return; h.mixk(dh,32); if(!h.dec(pl,Bytes(m3.begin()+48,m3.end()),0)||pl!=m3s.back().plain) { viol("foreign","the third setup message is not that of the protocol"); return; }
    }
    u8 g[64],k1[64],k2[64],t[64]; nz_hash(s->s,g); if(memcmp(g,h.h,64)) viol("foreign","the hash of the channel is not that of the protocol");
    Hs::hmac(t,h.ck,Bytes()); Hs::hmac(k1,t,Bytes(1,1)); Bytes x(k1,k1+64); x.push_back(2); Hs::hmac(k2,t,x); const u8*in=ini?k2:k1,*out=ini?k1:k2; u64 ni=0,no=0; int n=(int)r.range(1,6);
    for(int i=0;i<n&&R.v.empty();i++) { if(r.chance(1,2)) { m=payload(false); if(!write(*s,m,w)) return; if(!unseal(in,ni++,w,pl)||pl!=m) viol("foreign",fmt("message %d is not that of the protocol",i)); }
      else { m=some(); w=seal(out,no++,m); u8*q=NULL; size_t l=0; int rc=nz_read(s->s,2,w.data(),w.size(),&q,&l); Bytes got(q,q+l); if(q) free(q); if(rc!=NZ_OK||got!=m) viol("foreign",fmt("message %d from another implementation is refused or altered (%d)",i,rc)); s->next++; } }
    s->next=0; R.hit("foreign_channels");
  }
  // ---- a run
  void run() {
    int n=(int)p.get("devs",2); for(int i=0;i<n;i++) mkdev(i); if((int)dev.size()<n) return; u64 hid=(u64)p.get("hidden",0); Rng gr(hash2((u64)p.get("keys",3),77)); for(auto &d:dev) store_self(d);
    for(int i=0;i<n;i++) { vector<int> o; for(int j=0;j<n;j++) if(j!=i||p.get("selfreg")) o.push_back(j); gr.shuffle(o); if(p.get("crowd")&&i==p.get("crowddev")%n) crowd(dev[i],p.get("crowd"),p.get("crowdkeep",3)); for(int j:o) if(!(hid>>((i*n+j)%60)&1)) reg_add(i,j); }
    int nl=(int)p.get("links",1); links.resize(nl);
    for(int l=0;l<nl;l++) { Link&L=links[l]; L.ini=(int)(p.get(fmt("i%d",l).c_str())%n); L.resp=(int)(p.get(fmt("r%d",l).c_str())%n); if(L.resp==L.ini&&!p.get("selfreg")) L.resp=(L.ini+1)%n; L.route=L.resp;
      for(auto &f:p.f) if(f.kind=="net.redirect"&&f.get("link")%nl==l) L.route=(int)(f.get("x")%n);
      at(p.get(fmt("at%d",l).c_str()),[=]{ open(l); }); }
    for(auto &f:p.f) { const Fault F=f;
      if(f.kind=="reg.remove") at(f.get("at"),[=]{ reg_remove((int)(F.get("dev")%n),(int)(F.get("peer")%n)); });
      else if(f.kind=="reg.add") at(f.get("at"),[=]{ R.fire("reg.add"); reg_add((int)(F.get("dev")%n),(int)(F.get("peer")%n)); });
      else if(f.kind=="imp.ini") at(f.get("at"),[=]{ forge(F); });
      else if(f.kind=="peer.foreign") at(f.get("at"),[=]{ foreign(F); });
      else if(f.kind=="node.crash") at(f.get("at"),[=]{ crash((int)(F.get("dev")%n),F.get("down")); });
      else if(f.kind=="store") at(f.get("at"),[=]{ Dev&d=dev[F.get("dev")%n]; if(!d.d) return; store_self(d); vector<Reg> c=d.reg; for(auto &e:c) store_peer(d,e); });
      else if(f.kind=="sess.close") at(f.get("at"),[=]{ Link&L=links[F.get("link")%nl]; int k=F.get("dir")?L.a:L.b; if(k<0||!ss[k]->s) return; NUse u(*dev[ss[k]->dev].cx); nz_sfree(ss[k]->s); ss[k]->s=NULL; ss[k]->gone=true; L.broken=true; R.fire("sess.close"); R.act(hash2(5,k)); });
    }
    u64 steps=0; while(!q.empty()&&R.v.empty()&&steps++<20000) { auto it=q.begin(); now=it->first.first; auto f=it->second; q.erase(it); f(); }
    if(!R.v.empty()) return;
    // the network behaves again: what is still missing arrives in order
    for(auto &sp:ss) { Sess&s=*sp; if(!s.s||s.dead||s.step!=3||s.partner<0) continue; Sess&o=*ss[s.partner]; while(s.next<o.sent.size()&&R.v.empty()) { recv(s,o.sent[s.next].wire); R.hit("caught_up"); } }
    // channels that nobody disturbed must exist
    for(int l=0;l<nl&&R.v.empty();l++) { Link&L=links[l]; if(L.broken||L.a<0||L.b<0||L.route!=L.resp) continue; Sess&a=*ss[L.a],&b=*ss[L.b]; bool quiet=dev[L.ini].prlg==dev[L.resp].prlg; for(auto &f:p.f) if((f.kind.compare(0,4,"net.")==0&&(f.get("link")%nl==l||f.kind=="net.cross"))||(f.kind=="imp.resp"&&f.get("link")%nl==l)||(f.kind=="sess.close"&&f.get("link")%nl==l)||f.kind=="node.crash"||f.kind.compare(0,4,"reg.")==0) quiet=false;
      if(!find(dev[L.resp],dev[L.ini].pub)) quiet=false;
      if(quiet) { R.hit("undisturbed"); if(a.step!=3||b.step!=3||a.partner!=b.id||b.partner!=a.id||a.next!=b.sent.size()||b.next!=a.sent.size()) viol("stalled",fmt("undisturbed channel %d is not complete: steps %d and %d, received %zu of %zu and %zu of %zu",l,a.step,b.step,a.next,b.sent.size(),b.next,a.sent.size())); } }
    if(p.get("burst")&&R.v.empty()) for(auto &sp:ss) { Sess&s=*sp; if(!s.s||s.dead||s.step!=3||s.partner<0) continue; Sess&o=*ss[s.partner]; if(!o.s||o.dead||o.step!=3||o.partner!=s.id||o.next!=s.sent.size()) continue; burst(s,o); break; }
    for(auto &d:dev) if(d.d) { NUse u(*d.cx); table_ok(d,"at the end"); }
    R.sim_ms=(u64)now;
  }
  // nothing secret travels or is stored in the clear
  void scan() {
    set<u64> sec; for(auto &s:secrets) for(size_t i=0;i+16<=s.size();i+=s.size()>256?97:1) sec.insert(hashb(s.data()+i,16)); size_t big=0;
    for(auto &w:seen_wire) { if(w.size()>4096&&big++>6) continue; for(size_t i=0;i+16<=w.size();i++) if(sec.count(hashb(w.data()+i,16))) { viol("clear",fmt("a secret appears in clear in a message or stored item of %zu bytes",w.size())); return; } }
    set<Bytes> u; for(auto &s:ss) for(auto &m:s->sent) if(!u.insert(m.wire).second) viol("repeat","two messages look the same on the network");
  }
};
static Net*cur_net;
static void add_draw(seam_ctx*c,const u8*b,size_t n) { if(cur_net&&n>=16&&cur_net->secrets.size()<4000) cur_net->secrets.push_back(Bytes(b,b+n)); }

static Plan gen_noise(Rng&r,const string&check,u64 seed,u64 index,bool th) {
  Plan p; string id=check; if(check=="N06") { p.p["mode"]=r.range(1,5); id=fmt("N%02d",(int)p.p["mode"]); }     // disturbed in all the ways
  for(const char*k:{"lat","payload","keys","libseed"}) p.p[k]=(i64)(r.next()>>2);
  int devs=(int)r.range(2,id=="N02"?6:4),nl=(int)r.range(1,id=="N01"||id=="N02"?6:4); p.p["devs"]=devs; p.p["links"]=nl; p.p["maxlat"]=r.pick(vector<i64>{2,30,120}); p.p["chat"]=r.range(0,id=="N01"?8:3); if(id=="N01"&&r.chance(1,30)) { p.p["chat"]=r.range(260,340); p.p["links"]=nl=1; } if(check=="N02"&&r.chance(1,60)) { p.p["crowd"]=r.range(250,r.chance(1,10)?1000:290); p.p["crowdkeep"]=r.chance(1,3)?300:r.range(0,5); p.p["crowddev"]=(i64)r.below(devs); } if(check=="N01"&&r.chance(1,1500)) p.p["burst"]=65536-1000+r.range(0,3000); p.p["prlg"]=r.pick(vector<i64>{0,0,1,11,200}); p.p["samesk"]=r.chance(1,4)?1:0; if(r.chance(1,12)) p.p["selfreg"]=1;
  for(int l=0;l<nl;l++) { p.p[fmt("i%d",l)]=(i64)r.below(devs); p.p[fmt("r%d",l)]=(i64)r.below(devs); p.p[fmt("at%d",l)]=r.chance(1,2)?(i64)r.below(30):(i64)r.below(id=="N03"?3000:600); }
  auto net=[&](bool hs) { static const vector<const char*> k={"net.drop","net.flip","net.trunc","net.extend","net.garbage","net.dup","net.delay","net.reflect","net.cross","net.replay","net.splice","net.flip","net.cross"};
    int dir=(int)r.below(2); int first=dir==0?2:1; p.add(r.pick(k),{{"link",(i64)r.below(nl)},{"dir",dir},{"msg",hs?(i64)r.below(first):first+(i64)r.below(std::max<i64>(1,p.get("chat")))},{"x",(i64)r.below(100000)},{"y",(i64)r.below(100000)}}); };
  if(id=="N01") { int c=(int)r.range(1,8); for(int i=0;i<c;i++) net(r.chance(1,10)); if(r.chance(1,6)) p.add("sess.close",{{"link",(i64)r.below(nl)},{"dir",(i64)r.below(2)},{"at",(i64)r.below(900)}}); }
  if(id=="N02") {
    if(r.chance(1,2)) p.p["hidden"]=(i64)((r.next()&r.next())>>2);
    int c=(int)r.range(1,6); for(int i=0;i<c;i++) switch(r.below(10)) {
      case 9: p.add("peer.foreign",{{"dev",(i64)r.below(devs)},{"peer",(i64)r.below(devs)},{"x",(i64)r.below(100000)},{"at",(i64)r.below(500)}}); break;
      case 0: case 1: net(true); break;
      case 2: p.add("net.redirect",{{"link",(i64)r.below(nl)},{"x",(i64)r.below(devs)}}); break;
      case 3: p.add("reg.remove",{{"dev",(i64)r.below(devs)},{"peer",(i64)r.below(devs)},{"at",(i64)r.below(300)}}); break;
      case 4: p.add("reg.add",{{"dev",(i64)r.below(devs)},{"peer",(i64)r.below(devs)},{"at",(i64)r.below(400)}}); break;
      case 5: p.add("imp.resp",{{"link",(i64)r.below(nl)},{"x",(i64)r.below(60)}}); break;
      case 6: case 7: p.add("imp.ini",{{"dev",(i64)r.below(devs)},{"peer",(i64)r.below(devs)},{"x",(i64)r.below(120)},{"at",(i64)r.below(500)}}); break;
      case 8: if(r.chance(1,3)) p.add("cfg.prologue",{{"dev",(i64)r.below(devs)},{"x",(i64)r.below(255)}}); else p.add("net.cross",{{"link",(i64)r.below(nl)},{"dir",(i64)r.below(2)},{"msg",(i64)r.below(2)},{"x",(i64)r.below(nl)},{"y",(i64)r.below(1000)}}); break;
    } }
  if(id=="N03") {
    static const vector<const char*> k={"disk.flip","disk.flip","disk.trunc","disk.extend","disk.zero","disk.torn","disk.torn","disk.stale","disk.swap","disk.rename","disk.wrongkey"};
    int c=(int)r.range(1,3); for(int i=0;i<c;i++) p.add("node.crash",{{"dev",(i64)r.below(devs)},{"at",(i64)r.below(1500)},{"down",(i64)r.below(400)}});
    c=(int)r.range(0,4); for(int i=0;i<c;i++) p.add(r.pick(k),{{"dev",(i64)r.below(devs)},{"boot",(i64)(r.chance(3,4)?0:r.below(3))},{"file",(i64)r.below(1+devs)},{"bit",(i64)r.below(448)},{"len",(i64)r.below(60)}});
    c=(int)r.range(0,3); for(int i=0;i<c;i++) p.add("store",{{"dev",(i64)r.below(devs)},{"at",(i64)r.below(1400)}});
    c=(int)r.range(0,3); for(int i=0;i<c;i++) p.add(r.chance(1,2)?"reg.remove":"reg.add",{{"dev",(i64)r.below(devs)},{"peer",(i64)r.below(devs)},{"at",(i64)r.below(2000)}});
  }
  if(id=="N04") { p.p["chat"]=r.range(1,5); int c=(int)r.range(0,4); for(int i=0;i<c;i++) net(r.chance(1,6)); }
  if(id=="N05") { p.p["twin"]=(i64)(r.next()>>2); int c=(int)r.range(0,4); for(int i=0;i<c;i++) switch(r.below(4)) { case 0: net(r.chance(1,3)); break; case 1: p.add("node.crash",{{"dev",(i64)r.below(devs)},{"at",(i64)r.below(1500)},{"down",(i64)r.below(400)}}); break; case 2: p.add("store",{{"dev",(i64)r.below(devs)},{"at",(i64)r.below(1400)}}); break; case 3: p.add("reg.add",{{"dev",(i64)r.below(devs)},{"peer",(i64)r.below(devs)},{"at",(i64)r.below(1000)}}); } }
  return p;
}
static void exec_noise(const Plan&p,Result&R) {
  vector<Bytes> vals; seam_on_draw=NULL;
  { Net n(p,R); if(p.check=="N05") { n.fresh=true; cur_net=&n; seam_on_draw=add_draw; } n.run(); if(n.heap) n.release(); seam_on_draw=NULL; cur_net=NULL; if(p.check=="N05"&&R.v.empty()) n.scan(); vals=n.values; }
  if(p.check=="N05"&&R.v.empty()) { // the same history with other randomness
    Plan q=p; q.p["libseed"]=p.get("twin",1); Result T; Net n(q,T); n.run(); set<Bytes> a(vals.begin(),vals.end()); R.h(T.hash);
    for(auto &v:n.values) if(a.count(v)) { R.viol("N05.predictable","an ephemeral key or storage number does not depend on the random source"); break; } R.hit("values",vals.size()); }
  u64 c=0; for(auto &e:R.fired) c+=e.second;
  R.nontrivial=p.check=="N04"?R.probe["level_refused"]+R.probe["level_withheld"]>0:p.check=="N05"?R.probe["values"]>1:p.check=="N06"?true:c>0; if(!R.sim_ms) R.sim_ms=1;
}
} // namespace
CheckDef noise_checks[]={{"N01",gen_noise,exec_noise},{"N02",gen_noise,exec_noise},{"N03",gen_noise,exec_noise},{"N04",gen_noise,exec_noise},{"N05",gen_noise,exec_noise},{"N06",gen_noise,exec_noise},{NULL,NULL,NULL}};
