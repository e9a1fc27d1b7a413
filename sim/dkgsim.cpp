#include "dkgsim.h"

static World *W=nullptr;
static map<seam_ctx*,Node*> ctxmap;

static Node *node_of(seam_ctx *c) { return (Node*)c->user; }
static void on_draw(seam_ctx *c,const u8*b,size_t n) {
  Node *N=node_of(c); if(!N) return;
  for(size_t o=0;o+32<=n;o+=32) { A32 a; memcpy(a.data(),b+o,32); N->draws.push_back(a); }
}
static void on_keypair(seam_ctx *c,const u8*pk,const u8*sk) {
  Node *N=node_of(c); if(!N) return;
  memcpy(N->sig_pk.data(),pk,32); memcpy(N->sig_sk.data(),sk,64); N->has_key=true;
}
static void on_auth_key(seam_ctx *c,const u8*k) {
  Node *N=node_of(c); if(!N) return;
  A32 a; memcpy(a.data(),k,32); N->chan_keys.push_back(a);
}
static void on_pack(seam_ctx *c,u32 len,u8*m) {
  Node *N=node_of(c); if(!N||len!=SHARE) return;
  int to=m[0]; Sess&S=*N->S;
  if(to<1||to>S.n) return;
  N->dealt_orig[to]=Bytes(m,m+len);
  for(auto &f:W->P.f) if(f.kind=="byz.share" && f.get("s")==S.s && f.get("peer")==N->id && f.get("to")==to && to!=N->id) {
    u8 o[SHARE]; memcpy(o,m,SHARE);
    switch(f.get("mode")) {
      case 0: { A32 v; memcpy(v.data(),m+1,32); v=ref::add(v,ref::sc((u64)f.get("val",1)|1)); memcpy(m+1,v.data(),32); break; }
      case 1: { Rng r(hash2((u64)f.get("val"),7)); A32 v=ref::rnd(r); memcpy(m+1,v.data(),32); break; }
      case 2: m[32]^=0x80; break;
      case 3: { // add the group order, keeping the value below 2^255
        static const u8 L[32]={0xed,0xd3,0xf5,0x5c,0x1a,0x63,0x12,0x58,0xd6,0x9c,0xf7,0xa2,0xde,0xf9,0xde,0x14,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0x10};
        unsigned cy=0; for(int i=0;i<32;i++) { unsigned x=m[1+i]+L[i]+cy; m[1+i]=(u8)x; cy=x>>8; } break; }
      case 4: m[0]=(u8)f.get("val"); break;
      case 5: memset(m+1,0,32); break;
      case 6: { auto it=N->dealt_orig.find(to-1); if(it!=N->dealt_orig.end()) memcpy(m+1,it->second.data()+1,32); break; }
      case 7: m[1+((u64)f.get("val")%31)]^=(u8)(1u<<((u64)f.get("val")/31%8)); break;
    }
    if(memcmp(o,m,SHARE)) { W->R.fire("byz.share"); N->cheats=true; S.suspects.insert(N->id); S.devs.push_back({N->id,4,"share"}); }
  }
  N->dealt[to]=Bytes(m,m+len);
}

static bool trace=getenv("SIM_TRACE")!=NULL;
World::World(const Plan &p, Result &r):P(p),R(r) {
  W=this; fill=(u8)p.get("fill",0xa5); libseed=(u64)p.get("libseed",1); epoch=p.get("epoch",1700000000);
  seam_on_draw=on_draw; seam_on_keypair=on_keypair; seam_on_pack=on_pack; seam_on_auth_key=on_auth_key;
}
World::~World() {
  seam_cur=NULL; seam_on_draw=NULL; seam_on_keypair=NULL; seam_on_pack=NULL; seam_on_auth_key=NULL;
  for(auto &s:ss) for(auto &n:s->nodes) { if(n->tp) sh_tp_free(n->tp); if(n->peer) sh_peer_free(n->peer); }
  seam_heap_reset(); W=nullptr;
}

void World::enter(Node&N) {
  i64 t=epoch*1000+now+N.off+N.extra+now*N.drift_ppm/1000000;
  N.sc.clock_ms=t; N.sc.fill=fill; N.sc.track=on("heap");
  if(dirty) seam_dirty_stack(fill);
  seam_cur=&N.sc;
}
void World::leave(Node&N) {
  seam_cur=NULL;
  N.extra+=N.sc.clock_ms-(epoch*1000+now+N.off+N.extra+now*N.drift_ppm/1000000);
}

size_t inner_size(const Sess&S,int dir,u8 msgno,size_t total,size_t &start) {
  start=0;
  if(msgno==4||msgno==5||msgno==8) return S.n? total/(size_t)S.n : total;
  if(dir==0 && (msgno==3||msgno==7||msgno==10)) { start=O_DATA; return total>O_DATA && S.n? (total-O_DATA)/(size_t)S.n : 0; }
  if(dir==1 && msgno==2) return total>=64? total-64 : total;
  return total;
}
bool sig_ok(const u8*m,size_t len,const u8*pk) { return len>=O_DATA && crypto_sign_verify_detached(m,m+64,len-64,pk)==0; }

// signs a mutated message the way the library signed the original one
bool World::resign(Sess&S,Node&N,Bytes&b,size_t off,size_t len,const Bytes&orig) {
  (void)S;
  if(!N.has_key || off+len>b.size() || len<O_DATA) return false;
  size_t cov=len-64;
  if(off+len<=orig.size()) {
    const u8*m=orig.data()+off; const u8*pk=N.sig_pk.data();
    if(crypto_sign_verify_detached(m,m+64,len-64,pk)!=0 && crypto_sign_verify_detached(m,m+64,O_DATA-64,pk)==0) cov=O_DATA-64;
  }
  crypto_sign_detached(b.data()+off,NULL,b.data()+off+64,cov,N.sig_sk.data());
  return true;
}

// the sender of the last message at `off` announces and signs the length the input has now
void World::fit(Sess&S,Node&N,Bytes&b,size_t off) {
  if(b.size()<off+O_DATA) return;
  wr32(b.data()+off+O_LEN,(u32)(b.size()-off)); resign(S,N,b,off,b.size()-off,Bytes());
}

static void put_field(u8*m,int field,i64 val,Rng&r) {
  switch(field) {
    case 0: m[O_MSGNO]=(u8)val; break;
    case 1: wr32(m+O_LEN,(u32)val); break;
    case 2: m[O_FROM]=(u8)val; break;
    case 3: m[O_TO]=(u8)val; break;
    case 4: wr64(m+O_TS,rd64(m+O_TS)+(u64)val); break;
    case 5: m[O_SID+((u64)val%32)]^=(u8)(1+r.below(255)); break;
  }
}

// what a cheating peer does to its own outgoing messages
void World::byz(Sess&S,int link,u64 seq,Bytes&b) {
  Node&N=S.pr(link); const Bytes orig=b;
  u8 msgno=b.size()>=O_DATA?b[O_MSGNO]:0;
  size_t st, isz=inner_size(S,1,msgno,b.size(),st);
  for(auto &f:P.f) {
    if(f.kind.compare(0,4,"byz.")||f.get("s")!=S.s||f.get("peer")!=link) continue;
    bool semantic=f.a.find("seq")==f.a.end();
    if(!semantic && (u64)f.get("seq")!=seq) continue;
    if(isz<O_DATA) continue;
    Bytes before=b; size_t in=0; bool sign=true;
    if(msgno==4||msgno==5||msgno==8) in=(size_t)f.get("inner")%(size_t)S.n;
    u8*m=b.data()+in*isz; Rng r(hash2(hashs(f.kind),(u64)f.get("val")+seq*1000));
    bool ltsign=true;
    if(f.kind=="byz.hdr") put_field(m,(int)f.get("field"),f.get("val"),r);
    else if(f.kind=="byz.body") { if(isz>O_DATA) m[O_DATA+(u64)f.get("off")%(isz-O_DATA)]^=(u8)f.get("mask",1); }
    else if(f.kind=="byz.sig") { m[(u64)f.get("off")%64]^=(u8)f.get("mask",1); sign=false; }
    else if(f.kind=="byz.nosign") { if(isz>O_DATA) m[O_DATA+(u64)f.get("off")%(isz-O_DATA)]^=(u8)f.get("mask",1); sign=false; }
    else if(f.kind=="byz.ltsig") { if(msgno!=2) continue; b[b.size()-1-(u64)f.get("off")%64]^=(u8)f.get("mask",1); sign=false; ltsign=false; }
    else if(f.kind=="byz.noisepk") {
      if(msgno!=2) continue;
      if(f.get("mode")==0) memset(m+O_DATA+32,0,32);
      else if(f.get("mode")==1) r.fill(m+O_DATA+32,32);
      else { auto &o=S.fr[1][1+(u64)f.get("val")%(u64)S.n]; if(!o.empty()&&o[0].orig.size()>=O_DATA+64) memcpy(m+O_DATA+32,o[0].orig.data()+O_DATA+32,32); }
    }
    else if(f.kind=="byz.commit") {
      if(msgno!=6) continue;
      u8*c=m+O_DATA+32*((u64)f.get("k")%(u64)S.t);
      switch(f.get("mode")) {
        case 0: { A32 s=ref::rnd(r),p; ref::base(p,s); memcpy(c,p.data(),32); break; }
        case 1: memset(c,0xff,32); break;
        case 2: memset(c,0,32); break;
        case 3: c[(u64)f.get("val")%32]^=(u8)f.get("mask",1); break;
        case 4: { u8*d=m+O_DATA+32*(((u64)f.get("k")+1)%(u64)S.t); u8 tmp[32]; memcpy(tmp,c,32); memcpy(c,d,32); memcpy(d,tmp,32); break; }
      }
    }
    else if(f.kind=="byz.complain") {
      if(msgno!=9) continue;
      u8&cnt=m[O_DATA]; size_t cap=isz-O_DATA-1;
      if(f.get("mode")==0) { u8 tgt=(u8)f.get("val"); bool dup=false; for(size_t i=0;i<cnt&&i<cap;i++) dup|=m[O_DATA+1+i]==tgt; if(!dup&&cnt<cap) m[O_DATA+1+cnt++]=tgt; }
      else if(f.get("mode")==1) { if((size_t)cnt+2<=cap) { u8 tgt=cnt?m[O_DATA+1]:(u8)f.get("val"); if(!cnt) m[O_DATA+1+cnt++]=tgt; m[O_DATA+1+cnt++]=tgt; } }
      else if(f.get("mode")==2) cnt=(u8)f.get("val");
      else if(f.get("mode")==3) { for(size_t i=0;i<cap;i++) m[O_DATA+1+i]=(u8)(i+1); cnt=(u8)cap; }
    }
    else if(f.kind=="byz.hide") { if(msgno!=9) continue; memset(m+O_DATA,0,isz-O_DATA); }
    else if(f.kind=="byz.reveal") {
      if(msgno!=11||isz<O_DATA+33) continue;
      size_t k=(isz-O_DATA)/33, e=(u64)f.get("k")%k; u8*x=m+O_DATA+33*e;
      if(f.get("mode")==0) x[1+(u64)f.get("val")%32]^=(u8)f.get("mask",1);
      else if(f.get("mode")==1) x[0]=(u8)f.get("val");
      else if(f.get("mode")==2&&k>1) memcpy(x,m+O_DATA+33*((e+1)%k),33);
    }
    else if(f.kind=="byz.transcript") { if(msgno!=20) continue; m[O_DATA+(u64)f.get("off")%32]^=(u8)f.get("mask",1); }
    else if(f.kind=="byz.ack") { if(msgno!=22) continue; if(f.get("mode")==0) memcpy(m+O_DATA,"NO",2); else m[O_DATA+(u64)f.get("off")%2]^=(u8)f.get("mask",1); }
    else if(f.kind=="byz.silent") { continue; }
    else continue;
    if(b==before) continue;
    if(sign && !resign(S,N,b,in*isz,isz,orig)) { b=before; continue; }
    if(msgno==2 && ltsign && b.size()>=isz+64) crypto_sign_detached(b.data()+isz,NULL,b.data(),isz,S.lt_sk[link].data());
    R.fire(f.kind); N.cheats=true; S.suspects.insert(link); S.devs.push_back({link,seq,f.kind});
  }
  for(auto &f:P.f) if(f.kind=="byz.silent"&&f.get("s")==S.s&&f.get("peer")==link&&(u64)f.get("seq")<=seq) { b.clear(); R.fire(f.kind); N.cheats=true; S.suspects.insert(link); }
}

// what a hostile coordinator does (used only where nothing about blame is claimed)
void World::evil(Sess&S,int link,u64 seq,Bytes&b) {
  const Bytes orig=b;
  u8 msgno=b.size()>=O_DATA?b[O_MSGNO]:0;
  size_t st, isz=inner_size(S,0,msgno,b.size(),st);
  for(auto &f:P.f) {
    if(f.kind.compare(0,5,"evil.")||f.get("s")!=S.s) continue;
    if(f.kind=="evil.storm") { // coordinator and peers together: complaint lists of the peers' own making
      if(msgno!=10||(f.get("link")&&f.get("link")!=link)||isz<O_DATA+2) continue;
      Bytes before=b; size_t cap=isz-O_DATA-1; u64 mask=(u64)f.get("peers"); i64 cnt=f.get("count");
      for(int k=0;k<S.n;k++) if((mask>>(k%63))&1) { u8*m=b.data()+st+(size_t)k*isz; i64 v=f.get("val")?f.get("val"):link;
        Rng r(hash2(hash2(hashs(f.kind),(u64)cnt),(u64)k));
        for(size_t e=0;e<cap;e++) if((i64)e<cnt) switch(f.get("mode")) { case 0: m[O_DATA+1+e]=(u8)v; break; case 1: m[O_DATA+1+e]=(u8)((v-1+(i64)e)%S.n+1); break; case 2: m[O_DATA+1+e]=(u8)r.range(1,S.n); break; case 3: m[O_DATA+1+e]=(u8)r.range(0,255); }
        m[O_DATA]=(u8)cnt; resign(S,S.pr(k+1),b,st+(size_t)k*isz,isz,orig); S.pr(k+1).cheats=true; S.suspects.insert(k+1); }
      if(b==before) continue;
      resign(S,S.tp(),b,0,b.size(),orig); R.fire(f.kind); S.tampered_to_peer=true; continue;
    }
    if(f.get("link")!=link||(u64)f.get("seq")!=seq) continue;
    Rng r(hash2(hashs(f.kind),(u64)f.get("val")+seq*1000)); Bytes before=b;
    i64 inner=f.get("inner",-1);
    size_t off=0,len=b.size(); Node*signer=&S.tp();
    if(inner>=0 && isz>=O_DATA && (st>0||isz<b.size())) { int k=(int)(inner%S.n); off=st+(size_t)k*isz; len=isz; signer=S.nodes[k+1].get(); }
    if(len<O_DATA||off+len>b.size()) continue;
    u8*m=b.data()+off;
    if(f.kind=="evil.hdr") put_field(m,(int)f.get("field"),f.get("val"),r);
    else if(f.kind=="evil.body") { if(len>O_DATA) m[O_DATA+(u64)f.get("off")%(len-O_DATA)]=(u8)(f.get("set",-1)>=0?f.get("set"):m[O_DATA+(u64)f.get("off")%(len-O_DATA)]^(u8)f.get("mask",1)); }
    else if(f.kind=="evil.fill") { if(len>O_DATA) memset(m+O_DATA,(int)f.get("val"),len-O_DATA); }
    else continue;
    if(b==before) continue;
    resign(S,*signer,b,off,len,orig);
    if(off>0&&st>0) resign(S,S.tp(),b,0,b.size(),orig);
    R.fire(f.kind); S.tampered_to_peer=true;
  }
}

vector<std::pair<Bytes,i64>> World::net(Sess&S,int dir,int link,u64 seq,const Bytes&b0) {
  vector<std::pair<Bytes,i64>> out; Bytes b=b0; i64 delay=0; bool drop=false; vector<std::pair<Bytes,i64>> extra;
  u8 msgno=b.size()>=O_DATA?b[O_MSGNO]:0;
  for(auto &f:P.f) {
    if(f.kind.compare(0,4,"net.")||f.get("s")!=S.s||f.get("dir")!=dir||f.get("link")!=link) continue;
    if(f.kind=="net.part") { if(now>=f.get("from")&&now<f.get("to")) { delay=std::max(delay,f.get("to")-now); R.fire(f.kind); } continue; }
    if((u64)f.get("seq")!=seq) continue;
    Rng r(hash2(hashs(f.kind),(u64)f.get("val")+seq*77)); Bytes before=b; size_t st,isz=inner_size(S,dir,msgno,b.size(),st);
    bool changed=true;
    if(f.kind=="net.flip") { if(b.size()) b[(u64)f.get("off")%b.size()]^=(u8)f.get("mask",1); }
    else if(f.kind=="net.trunc") { size_t k=std::min<size_t>((size_t)f.get("val"),b.size()); b.resize(b.size()-k); }
    else if(f.kind=="net.extend") { Bytes x((size_t)f.get("val")); r.fill(x.data(),x.size()); b.insert(b.end(),x.begin(),x.end()); }
    else if(f.kind=="net.drop") drop=true;
    else if(f.kind=="net.delay") { delay+=f.get("val"); changed=false; R.fire(f.kind); }
    else if(f.kind=="net.dup") { extra.push_back({b0,f.get("val")}); }
    else if(f.kind=="net.retx") { extra.push_back({b0,f.get("val")}); }
    else if(f.kind=="net.hdr") { size_t k=0; if(isz>=O_DATA&&isz<=b.size()) k=(u64)f.get("inner")%(b.size()/isz); if(b.size()>=k*isz+O_DATA) put_field(b.data()+k*isz,(int)f.get("field"),f.get("val"),r); }
    else if(f.kind=="net.replay") { auto &v=S.fr[dir][f.get("slink",link)]; u64 q2=(u64)f.get("sseq"); if(q2<v.size()) b=v[q2].sent; }
    else if(f.kind=="net.reflect") { auto &v=S.fr[1-dir][link]; if(!v.empty()) b=v.back().sent; }
    else if(f.kind=="net.other") { auto &v=S.fr[dir][f.get("slink",link)]; if(seq<v.size()) b=v[seq].sent; }
    else if(f.kind=="net.xsess") { int o=(int)f.get("os"); if(o<(int)ss.size()&&o!=S.s&&ss[o]) { auto &v=ss[o]->fr[dir][link]; if(seq<v.size()) b=v[seq].sent; } }
    else if(f.kind=="net.swap") { if(isz>0&&b.size()>=st+2*isz) { size_t c=(b.size()-st)/isz,x=(u64)f.get("a")%c,y=(u64)f.get("b")%c; Bytes t(b.begin()+st+x*isz,b.begin()+st+(x+1)*isz); memmove(b.data()+st+x*isz,b.data()+st+y*isz,isz); memcpy(b.data()+st+y*isz,t.data(),isz); } }
    else if(f.kind=="net.mixold") { // one sub-message replaced by another of the same position from another frame
      auto &v=S.fr[dir][f.get("slink",link)]; if(seq<v.size()&&v[seq].sent.size()==b.size()&&isz>0&&b.size()>=st+isz) { size_t c=(b.size()-st)/isz,x=(u64)f.get("a")%c; memcpy(b.data()+st+x*isz,v[seq].sent.data()+st+x*isz,isz); } }
    else if(f.kind=="net.zero") { std::fill(b.begin(),b.end(),(u8)f.get("val")); }
    else continue;
    if(changed && (b!=before||drop||!extra.empty())) { R.fire(f.kind); if(dir==1) S.suspects.insert(link); else S.tampered_to_peer=true; }
  }
  if(!drop) out.push_back({b,delay});
  for(auto &e:extra) out.push_back({e.first,delay+e.second});
  return out;
}

void World::send(Sess&S,int dir,int link,const Bytes&b0) {
  u64 seq=S.fr[dir][link].size();
  Bytes b=b0;
  S.fr[dir][link].push_back({b0,b0,now});
  S.whist=hash2(S.whist,hash2((u64)(dir*1000+link),hashb(b0)));
  if(dir==1) byz(S,link,seq,b); else evil(S,link,seq,b);
  S.fr[dir][link][seq].sent=b;
  const vector<i64> *sc=nullptr; auto it=P.sched.find(S.s); if(it!=P.sched.end()) sc=&it->second;
  i64 lat=0; u64 k=S.sends++;
  if(sc&&k<sc->size()) lat=(*sc)[k];
  if(b.empty()) return;
  i64 frag=P.get("frag",1);
  for(auto &e:net(S,dir,link,seq,b)) {
    i64 at=std::max(now+lat+e.second, S.last_arr[dir][link]);
    S.last_arr[dir][link]=at;
    // fragments: boundaries and gaps follow from the schedule entry alone
    size_t parts=1; Rng r(hash2(hash2((u64)S.s,k),hash2((u64)lat,(u64)frag)));
    if(frag>1&&e.first.size()>1) parts=1+r.below((u64)frag);
    size_t o=0;
    for(size_t p=0;p<parts;p++) {
      size_t end=p+1==parts? e.first.size() : o+r.below(e.first.size()-o+1);
      if(end==o&&p+1<parts) continue;
      push(at,1,S.s,dir,link,Bytes(e.first.begin()+o,e.first.begin()+end));
      if(p+1<parts) { at+=(i64)r.below((u64)P.get("fraggap",20)+1); S.last_arr[dir][link]=at; }
      o=end;
    }
  }
}

void World::start(Sess&S) {
  Node&T=S.tp(); Rng kr(hash2(libseed,hash2(0x17,(u64)P.get("samelt",0)?0:(u64)S.s)));
  S.lt_sk.resize(S.n+1); S.lt_pk.resize(32*S.n);
  for(int i=1;i<=S.n;i++) { u8 seed[32]; kr.fill(seed,32); seam_cur=NULL; crypto_sign_seed_keypair(S.lt_pk.data()+32*(i-1),S.lt_sk[i].data(),seed); }
  u8 msg0[MSG0]; memset(msg0,fill,sizeof msg0);
  T.tp=sh_tp_new(fill);
  enter(T);
  string name=fmt("simulated session %lld",(long long)P.get(fmt("name%d",S.s).c_str(),P.get("name",0)));
  Bytes m0(MSG0,fill);
  int r=sh_tp_start(T.tp,S.eps,S.n,S.t,name.c_str(),name.size(),m0.data());
  if(r==0) sh_tp_bufs(T.tp,S.n,S.t,S.lt_pk.data(),fill,(size_t)P.get("cmax",0));
  i64 clk=T.sc.clock_ms;
  leave(T);
  R.act(hash2(hash2((u64)S.s,0),(u64)r)); R.h(hash2((u64)r,hashb(m0)));
  if(r!=0) { T.failed=true; T.startfail=true; T.ret=r; return; }
  T.started=true; memcpy(S.sid.data(),m0.data()+O_SID,32); S.has_sid=true;
  T.m_last.assign(S.n+1,(u64)(clk/1000));
  for(int i=1;i<=S.n;i++) send(S,0,i,m0);
  pump_tp(S);
}

void World::collect_named(Sess&S) {
  S.named.clear(); S.reports.clear();
  size_t k=sh_tp_cheaters(S.tp().tp);
  if(k>sh_tp_cheater_max(S.tp().tp)) { R.viol("K09.cheaterlen","number of recorded violations exceeds the room given"); return; }
  for(size_t i=0;i<k;i++) { char out[192]; memset(out,0,sizeof out); int raw[5]; int p=sh_tp_cheater(S.tp().tp,i,out,sizeof out,raw);
    if(p) S.named.insert(p); S.reports.push_back(fmt("%d:%s",p,out)); R.h(hash2((u64)p,hashs(out))); }
}

void World::pump_tp(Sess&S) {
  Node&T=S.tp();
  if(!T.started||T.crashed||T.released||now<T.stall_until) return;
  for(int guard=0;guard<64;guard++) {
    bool nd=sh_tp_not_done(T.tp);
    if(T.failed && !T.ignore_err) return;
    if(!nd && !(T.failed&&T.force)) { if(!T.failed&&!T.finished) { T.finished=true; R.hit("tp.done"); } return; }
    if(T.failed && T.err_calls>=3) return;
    vector<size_t> sz(S.n,0); 
    enter(T); size_t total=sh_tp_in(T.tp); sh_tp_ins(T.tp,sz.data()); size_t outl=sh_tp_out(T.tp); leave(T);
    bool raw=P.get("raw",0), odd=false;
    Bytes in; Call c; c.node=0; c.k=T.ncalls; c.now=now;
    bool have=true; for(int i=1;i<=S.n;i++) if(T.rx[i].size()<sz[i-1]) have=false;
    if(!have) { if(!(T.failed&&T.force)) return; in.assign(total,0); }
    else for(int i=1;i<=S.n;i++) if(sz[i-1]) {
      Bytes g(T.rx[i].begin(),T.rx[i].begin()+sz[i-1]); T.rx[i].erase(T.rx[i].begin(),T.rx[i].begin()+sz[i-1]);
      u64 sq=T.cons[i]++; bool alt=sq>=S.fr[1][i].size()||S.fr[1][i][sq].sent!=g;
      c.in.push_back({i,sq,g,alt}); in.insert(in.end(),g.begin(),g.end());
    }
    if(raw) { auto it=P.p.find("rawcall"); if(it!=P.p.end()&&(u64)it->second==T.ncalls) { i64 d=P.get("rawlen"); size_t last=c.in.empty()?0:in.size()-c.in.back().got.size(), was=in.size(); if(d<0) in.resize(in.size()>=(size_t)-d?in.size()+d:0); else in.resize(in.size()+d,0x41);
      if(P.get("rawfit")&&!c.in.empty()) fit(S,S.pr(c.in.back().link),in,last); odd=was&&in.size()!=was; R.fire("drv.len"); } }
    u8*ib=in.empty()?NULL:(u8*)seam_raw_malloc(in.size()); if(ib) memcpy(ib,in.data(),in.size());
    u8*ob=outl?(u8*)seam_raw_malloc(outl):NULL; if(ob) memset(ob,fill,outl);
    u64 mf=T.sc.mlock_failed; bool wasfailed=T.failed;
    enter(T); T.sc.clock_lo=T.sc.clock_hi=T.sc.clock_ms; i64 lk=T.sc.locked;
    int r=sh_tp_next(T.tp,ib,in.size(),ob,outl);
    c.clk0=T.sc.clock_lo; c.clk1=T.sc.clock_hi; leave(T);
    if(odd&&r==0&&!wasfailed&&on("K09")) R.viol("K09.length",fmt("coordinator takes %zu bytes in call %llu",in.size(),(unsigned long long)c.k));
    c.ret=r; c.mlockfail=T.sc.mlock_failed!=mf; T.ncalls++;
    c.outlen=outl; c.outhash=ob?hashb(ob,outl):0;
    if(on("lock") && T.sc.locked!=lk) R.viol("K12.locked",fmt("coordinator call %llu leaves %lld regions locked",(unsigned long long)c.k,(long long)(T.sc.locked-lk)));
    R.act(hash2(hash2((u64)S.s,0),(u64)r)); R.h(hash2(hash2((u64)now,(u64)r),r==0?c.outhash:0));
    S.whist=hash2(S.whist,hash2((u64)r,r==0?c.outhash:1));
    if(trace) fprintf(stderr,"%8lld s%d node %d call %llu ret %d out %zu %016llx\n",(long long)now,S.s,c.node,(unsigned long long)c.k,r,c.outlen,(unsigned long long)c.outhash);
    u64 st=hash2((u64)S.s,0); for(auto &n:S.nodes) st=hash2(st,n->ncalls*8+n->failed*4+n->finished*2+n->crashed); R.states.push_back(st);
    Bytes out; if(ob) out.assign(ob,ob+outl);
    free(ib); free(ob);
    if(wasfailed) {
      T.err_calls++; R.hit("after_error_call");
      if(r==0 && on("K08")) R.viol("K08.aftererror",fmt("coordinator call after an error (%d) reported success",T.ret));
      if(sh_tp_not_done(T.tp) && on("K08")) R.viol("K08.notfinal",fmt("coordinator still wants to continue after an error (%d)",T.ret));
      if(r!=0) continue;
    }
    if(r!=0) { T.failed=true; T.ret=r;
      if(sh_tp_not_done(T.tp) && on("K08")) R.viol("K08.notfinal",fmt("coordinator still wants to continue after error %d at call %llu",r,(unsigned long long)c.k)); }
    collect_named(S);
    S.calls.push_back(c);
    after_tp_call(S,S.calls.back(),out,r==0);
    bool sendit=r==0 || (P.get("sendno",1) && out.size()==O_DATA+2 && out[O_MSGNO]==21 && !memcmp(out.data()+O_SID,S.sid.data(),32) && !wasfailed);
    if(sendit && outl) for(int i=0;i<S.n;i++) {
      const u8*m=NULL; size_t l=0; enter(T); int pr=sh_tp_msg(T.tp,out.data(),out.size(),i,&m,&l); leave(T);
      if(on("K09")) { // asked with less output than there is, or for a peer that does not exist
        const u8*m2=NULL; size_t l2=0, cut=out.size()-1-(size_t)(i*37)%out.size(); enter(T);
        if(sh_tp_msg(T.tp,out.data(),cut,i,&m2,&l2)==0&&l2&&m2&&(m2<out.data()||m2+l2>out.data()+cut)) R.viol("K09.peermsg",fmt("message for peer %d reaches past the %zu bytes of output",i+1,cut));
        if(i==0&&sh_tp_msg(T.tp,out.data(),out.size(),S.n,&m2,&l2)==0) R.viol("K09.peermsg",fmt("message for peer %d of %d",S.n+1,S.n));
        leave(T); }
      if(pr==0&&l&&m) send(S,0,i+1,Bytes(m,m+l));
      else if(pr!=0 && r==0) R.viol("K02.peermsg",fmt("coordinator produced output but no message for peer %d (%d)",i+1,pr));
    }
    if(r!=0&&!T.ignore_err) return;
  }
  R.viol("K02.unbounded","coordinator did not finish in a bounded number of steps");
}

void World::pump_peer(Sess&S,int i) {
  Node&N=S.pr(i);
  if(N.crashed||N.released||now<N.stall_until) return;
  Bytes&rx=N.rx[0];
  for(int guard=0;guard<64;guard++) {
    if(!N.started) {
      if(N.failed) return;
      if(rx.size()<MSG0) return;
      Call c; c.node=i; c.k=N.ncalls; c.now=now;
      Bytes g(rx.begin(),rx.begin()+MSG0); rx.erase(rx.begin(),rx.begin()+MSG0);
      u64 sq=N.cons[0]++; bool alt=sq>=S.fr[0][i].size()||S.fr[0][i][sq].sent!=g;
      c.in.push_back({i,sq,g,alt});
      N.peer=sh_peer_new(fill);
      u8*ib=(u8*)seam_raw_malloc(MSG0); memcpy(ib,g.data(),MSG0);
      enter(N); N.sc.clock_lo=N.sc.clock_hi=N.sc.clock_ms; int r=sh_peer_start(N.peer,S.eps,S.lt_sk[i].data(),ib,fill); c.clk0=N.sc.clock_lo; c.clk1=N.sc.clock_hi; leave(N);
      free(ib);
      N.ncalls++; c.ret=r; c.mlockfail=false; c.outlen=0; c.outhash=0;
      R.act(hash2(hash2((u64)S.s,(u64)i),(u64)r)); R.h(hash2((u64)now,(u64)r)); S.whist=hash2(S.whist,hash2((u64)i*7,(u64)r));
      S.calls.push_back(c);
      if(r!=0) { N.failed=true; N.startfail=true; N.ret=r; return; }
      N.started=true; N.m_last.assign(S.n+1,0);
      continue;
    }
    bool nd=sh_peer_not_done(N.peer);
    if(N.failed && !N.ignore_err) return;
    if(!nd && !(N.failed&&N.force)) { if(!N.failed&&!N.finished) { N.finished=true;
        u8 sh[SHARE]; sh_peer_share(N.peer,sh); int own=sh_peer_index(N.peer);
        if(sh[0]==own) { memcpy(N.share,sh,SHARE); N.has_share=true; R.h(hashb(sh,SHARE)); S.whist=hash2(S.whist,hashb(sh,SHARE)); }
        R.hit(N.has_share?"peer.share":"peer.noshare"); }
      return; }
    if(N.failed && N.err_calls>=3) return;
    enter(N); size_t need=sh_peer_in(N.peer), outl=sh_peer_out(N.peer); leave(N);
    Call c; c.node=i; c.k=N.ncalls; c.now=now; Bytes g; bool odd=false;
    if(rx.size()<need) { if(!(N.failed&&N.force)) return; g.assign(need,0); }
    else if(need) { g.assign(rx.begin(),rx.begin()+need); rx.erase(rx.begin(),rx.begin()+need);
      u64 sq=N.cons[0]++; bool alt=sq>=S.fr[0][i].size()||S.fr[0][i][sq].sent!=g; c.in.push_back({i,sq,g,alt}); }
    if(P.get("raw",0)) { auto it=P.p.find("rawpeercall"); if(it!=P.p.end()&&(u64)it->second==N.ncalls&&P.get("rawpeer")==i) { i64 d=P.get("rawlen"); size_t was=g.size(), st=0, isz=was>=O_DATA?inner_size(S,0,g[O_MSGNO],was,st):0; if(d<0) g.resize(g.size()>=(size_t)-d?g.size()+d:0); else g.resize(g.size()+d,0x41);
      if(P.get("rawfit")&&isz) { if(st==0&&isz>=O_DATA&&isz<was) fit(S,S.pr((int)(was/isz)),g,was-isz); else fit(S,S.tp(),g,0); } odd=was&&g.size()!=was; R.fire("drv.len"); } }
    u8*ib=g.empty()?NULL:(u8*)seam_raw_malloc(g.size()); if(ib) memcpy(ib,g.data(),g.size());
    u8*ob=outl?(u8*)seam_raw_malloc(outl):NULL; if(ob) memset(ob,fill,outl);
    u64 mf=N.sc.mlock_failed; bool wasfailed=N.failed;
    enter(N); N.sc.clock_lo=N.sc.clock_hi=N.sc.clock_ms; i64 lk=N.sc.locked;
    int r=sh_peer_next(N.peer,ib,g.size(),ob,outl);
    c.clk0=N.sc.clock_lo; c.clk1=N.sc.clock_hi; leave(N);
    if(odd&&r==0&&!wasfailed&&on("K09")) R.viol("K09.length",fmt("peer %d takes %zu bytes in call %llu",i,g.size(),(unsigned long long)c.k));
    c.ret=r; c.mlockfail=N.sc.mlock_failed!=mf; if(c.mlockfail) R.fire("res.mlock"); N.ncalls++; c.outlen=outl; c.outhash=ob?hashb(ob,outl):0;
    if(on("lock") && N.sc.locked!=lk) R.viol("K12.locked",fmt("peer %d call %llu leaves %lld regions locked",i,(unsigned long long)c.k,(long long)(N.sc.locked-lk)));
    R.act(hash2(hash2((u64)S.s,(u64)i),(u64)r)); R.h(hash2(hash2((u64)now,(u64)r),r==0?c.outhash:0));
    S.whist=hash2(S.whist,hash2((u64)r+(u64)i*131,r==0?c.outhash:1));
    if(trace) fprintf(stderr,"%8lld s%d node %d call %llu ret %d out %zu %016llx\n",(long long)now,S.s,c.node,(unsigned long long)c.k,r,c.outlen,(unsigned long long)c.outhash);
    u64 st=hash2((u64)S.s,0); for(auto &n:S.nodes) st=hash2(st,n->ncalls*8+n->failed*4+n->finished*2+n->crashed); R.states.push_back(st);
    Bytes out; if(ob) out.assign(ob,ob+outl);
    free(ib); free(ob);
    if(wasfailed) {
      N.err_calls++; R.hit("after_error_call");
      if(r==0 && on("K08")) R.viol("K08.aftererror",fmt("peer %d call after an error (%d) reported success",i,N.ret));
      if(sh_peer_not_done(N.peer) && on("K08")) R.viol("K08.notfinal",fmt("peer %d still wants to continue after an error (%d)",i,N.ret));
      if(r!=0) continue;
    }
    if(r!=0) { N.failed=true; N.ret=r;
      if(sh_peer_not_done(N.peer) && on("K08")) R.viol("K08.notfinal",fmt("peer %d still wants to continue after error %d",i,r)); }
    if(!c.in.empty() && c.in[0].got.size()==O_DATA+2 && c.in[0].got[O_MSGNO]==21) N.approval=c.in[0].got;
    S.calls.push_back(c);
    if(r==0 && !out.empty()) send(S,1,i,out);
    if(r!=0&&!N.ignore_err) return;
  }
  R.viol("K02.unbounded",fmt("peer %d did not finish in a bounded number of steps",i));
}

void World::run() {
  int ns=(int)P.get("sessions",1);
  sh_log((int)P.get("log",0));
  for(int s=0;s<ns;s++) {
    auto S=std::make_unique<Sess>(); S->s=s;
    S->n=(int)P.get(fmt("n%d",s).c_str(),P.get("n",3)); S->t=(int)P.get(fmt("t%d",s).c_str(),P.get("t",2)); S->eps=(u64)P.get("eps",120000); S->epoch=epoch;
    S->start_at=P.get(fmt("start%d",s).c_str(),0);
    for(int i=0;i<=S->n;i++) {
      auto N=std::make_unique<Node>(); N->S=S.get(); N->id=i; N->sc.user=N.get();
      seam_seed(&N->sc,hash2(libseed,hash2((u64)s*1000+7,(u64)i)));
      for(auto &f:P.f) {
        if(f.get("s")!=s||f.get("node",-1)!=i) continue;
        if(f.kind=="clock.off") { N->off=f.get("val"); R.fire(f.kind); }
        if(f.kind=="clock.drift") { N->drift_ppm=f.get("val"); R.fire(f.kind); }
        if(f.kind=="clock.tick") { N->sc.tick_ms=f.get("val"); R.fire(f.kind); }
        if(f.kind=="clock.jumpcall") { N->sc.jump_at=(u64)f.get("at"); N->sc.jump_ms=f.get("val"); R.fire(f.kind); }
        if(f.kind=="res.mlock"&&!skip_mlock) N->sc.mlock_fail_at=(u64)f.get("at");
        if(f.kind=="drv.ignore") { N->ignore_err=true; N->force=f.get("force"); }
        if(f.kind=="clock.jump") push(f.get("at"),3,s,0,i,Bytes());
        if(f.kind=="proc.crash") push(f.get("at"),4,s,0,i,Bytes());
        if(f.kind=="proc.stall") push(f.get("at"),5,s,0,i,Bytes());
      }
      if(P.check=="K02"&&i>0&&N->off<S->nodes[0]->off) N->off=S->nodes[0]->off; // no peer is behind the coordinator, also in shrunken plans
      S->nodes.push_back(std::move(N));
    }
    ss.push_back(std::move(S));
  }
  for(auto &S:ss) if(only<0||only==S->s) push(S->start_at,0,S->s,0,0,Bytes());
  u64 guard=0;
  while(!q.empty()) {
    if(++guard>400000) { R.viol("K02.unbounded","event limit reached"); break; }
    Ev e=q.top(); q.pop(); now=e.t;
    Sess&S=*ss[e.s];
    if(only>=0&&e.s!=only) continue;
    switch(e.type) {
      case 0: start(S); break;
      case 1: {
        if(e.dir==0) { Node&N=S.pr(e.link); if(N.crashed) break; N.rx[0].insert(N.rx[0].end(),e.b.begin(),e.b.end()); pump_peer(S,e.link); }
        else { Node&T=S.tp(); if(T.crashed) break; T.rx[e.link].insert(T.rx[e.link].end(),e.b.begin(),e.b.end()); pump_tp(S); }
        break; }
      case 3: { for(auto &f:P.f) if(f.kind=="clock.jump"&&f.get("s")==e.s&&f.get("node")==e.link&&f.get("at")==e.t) { S.nodes[e.link]->extra+=f.get("val"); R.fire(f.kind); } break; }
      case 4: { Node&N=*S.nodes[e.link]; if(!N.crashed) { N.crashed=true; R.fire("proc.crash");
          for(auto &f:P.f) if(f.kind=="proc.crash"&&f.get("s")==e.s&&f.get("node")==e.link&&f.get("release")&&N.peer&&!N.released) { enter(N); sh_peer_release(N.peer); leave(N); N.released=true; } } break; }
      case 5: { for(auto &f:P.f) if(f.kind=="proc.stall"&&f.get("s")==e.s&&f.get("node")==e.link&&f.get("at")==e.t) { Node&N=*S.nodes[e.link]; N.stall_until=std::max(N.stall_until,now+f.get("val")); R.fire(f.kind); push(N.stall_until,6,e.s,0,e.link,Bytes()); } break; }
      case 6: if(e.link==0) pump_tp(S); else pump_peer(S,e.link); break;
    }
  }
  R.sim_ms+=(u64)now;
  finish();
}

// every participant is released at the end, whatever state it is in
void World::finish() {
  for(auto &S:ss) for(auto &n:S->nodes) if(n->peer&&!n->released) { enter(*n); i64 lk=n->sc.locked; sh_peer_release(n->peer); leave(*n); n->released=true;
    if(on("lock")&&n->sc.locked!=0) R.viol("K12.locked",fmt("peer %d released with %lld regions locked",n->id,(long long)lk));
    if(on("heap")&&n->sc.held!=0) R.viol("K14.held",fmt("peer %d of %d is released with %lld pieces of memory still held",n->id,S->n,(long long)n->sc.held)); }
}
