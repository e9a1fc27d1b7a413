// Oracles and plan generators for the coordinated key generation properties.
#include "dkgsim.h"

static bool is_zero(const u8*p) { for(int i=0;i<32;i++) if(p[i]) return false; return true; }

int share_ref(const Sess&S,const Bytes&commits,int receiver,const Bytes&share) {
  if(commits.size()<32u*S.t||share.size()!=SHARE) return 2;
  bool open=false;
  for(int k=0;k<S.t;k++) { const u8*c=commits.data()+32*k; if(is_zero(c)) { open=true; continue; } if(!crypto_core_ristretto255_is_valid_point(c)) return 1; }
  A32 v=ref::reduce(share.data()+1), lhs{}, rhs{}; 
  if(!ref::base(lhs,v)) lhs.fill(0);
  A32 pw=ref::sc(1), j=ref::sc((u64)receiver);
  for(int k=0;k<S.t;k++) { const u8*c=commits.data()+32*k; A32 x;
    if(!is_zero(c)) { if(ref::smul(x,pw,c)) { if(is_zero(rhs.data())) rhs=x; else if(!ref::padd(rhs,rhs.data(),x.data())) return 2; } }
    pw=ref::mul(pw,j); }
  if(lhs!=rhs) return 1;
  if(open||is_zero(lhs.data())) return 2;
  if(!ref::canonical(share.data()+1)||share[0]!=receiver) return 2;
  return 0;
}

// commitments of dealer i as broadcast to and consumed by peer j
static Bytes commits_seen(Sess&S,int j,int i) {
  for(auto &c:S.calls) if(c.node==j && c.ret==0) for(auto &x:c.in) if(x.got.size()>=O_DATA && x.got[O_MSGNO]==7 && x.seq==5) {
    size_t isz=(x.got.size()-O_DATA)/S.n, o=O_DATA+isz*(i-1)+O_DATA; 
    if(o+32u*S.t<=x.got.size()) return Bytes(x.got.begin()+o,x.got.begin()+o+32*S.t);
  }
  return Bytes();
}
static int expected_msgno(u64 seq,bool complaints) { static const int m[]={2,4,5,6,8,9,20,22}; if(seq>7) return -1; if(seq==6&&complaints) return 11; return m[seq]; }
static bool has_complaints(Sess&S) {
  for(auto &c:S.calls) if(c.node==0) for(auto &x:c.in) if(x.seq==5&&x.got.size()>O_DATA&&x.got[O_MSGNO]==9&&x.got[O_DATA]) return true;
  return false;
}

// does this message, as received, show on its face that its sender deviated?
static bool frame_valid(Sess&S,int i,u64 seq,const Bytes&g,bool complaints) {
  int no=expected_msgno(seq,complaints); if(no<0) return false;
  size_t st,isz=inner_size(S,1,(u8)no,g.size(),st);
  size_t cnt=(no==4||no==5||no==8)?S.n:1;
  for(size_t k=0;k<cnt;k++) {
    const u8*m=g.data()+k*isz; int to=(no==4||no==5||no==8)?(int)k+1:(no==2||no==6||no==9)?0xff:0;
    if(isz<O_DATA||rd32(m+O_LEN)!=isz||m[O_MSGNO]!=no||m[O_FROM]!=i||m[O_TO]!=to||memcmp(m+O_SID,S.sid.data(),32)) return false;
    u64 ts=rd64(m+O_TS); typedef __int128 w; if((w)ts+S.eps<S.epoch||(w)ts>(w)S.epoch+3*(w)S.eps) return false;
    const u8*pk=no==2?m+O_DATA:S.pr(i).sig_pk.data();
    if(crypto_sign_verify_detached(m,m+64,isz-64,pk)) return false;
  }
  return true;
}

void World::after_tp_call(Sess&S,Call&c,const Bytes&out,bool ok) {
  bool comp=has_complaints(S);
  if(on("K08") && out.size()==O_DATA+2 && out[O_MSGNO]==21 && memcmp(out.data()+O_DATA,"OK",2)==0) {
    // approval requires equal transcripts and no complaints
    set<Bytes> tr; bool all=c.in.size()==(size_t)S.n, bad=false;
    for(auto &x:c.in) { if(x.got.size()<O_DATA+32||x.got[O_MSGNO]!=20) all=false; else tr.insert(Bytes(x.got.begin()+O_DATA,x.got.begin()+O_DATA+32)); if(x.altered) bad=true; }
    if(!all||tr.size()!=1) R.viol("K08.approval",fmt("coordinator approved although only %zu transcripts arrived in %zu versions",c.in.size(),tr.size()));
    else if(comp) R.viol("K08.approval","coordinator approved a session in which a peer complained");
    else if(bad) R.viol("K08.approval","coordinator approved on altered transcripts");
    R.hit("approved");
  }
  if(on("K08") && ok && !c.in.empty() && c.in[0].seq==7) {
    for(auto &x:c.in) if(x.got.size()!=O_DATA+2||memcmp(x.got.data()+O_DATA,"OK",2)) R.viol("K08.unconfirmed",fmt("coordinator reported success although peer %d did not confirm",x.link));
  }
  if(on("K07") && !c.in.empty()) {
    set<int> V; bool oddlen=false;
    for(auto &x:c.in) {
      int i=x.link; bool fv=frame_valid(S,i,x.seq,x.got,comp);
      const Bytes &orig=x.seq<S.fr[1][i].size()?S.fr[1][i][x.seq].orig:x.got;
      if(x.seq==0) { const u8*m=x.got.data(); size_t l=x.got.size()-64; if(crypto_sign_verify_detached(m+l,m,l,S.lt_pk.data()+32*(i-1))) { V.insert(i); R.hit("K07.ltsig"); } }
      if(orig.size()!=x.got.size()) oddlen=true;
      if(!fv) { V.insert(i); continue; }
      const u8*m=x.got.data();
      if(x.seq==5) { u8 cnt=m[O_DATA]; set<int> seen; if(cnt>x.got.size()-O_DATA-1) V.insert(i); else for(int k=0;k<cnt;k++) { int a=m[O_DATA+1+k]; if(a<1||a>S.n||seen.count(a)) V.insert(i); seen.insert(a); } }
      if(x.seq==6&&!comp) { if(orig.size()==x.got.size()&&memcmp(orig.data()+O_DATA,m+O_DATA,32)) V.insert(i); }
      if(x.seq==6&&comp) {
        size_t k=(x.got.size()-O_DATA)/33;
        for(size_t e=0;e<k;e++) { const u8*p=m+O_DATA+33*e; int cpl=p[0];
          if(orig.size()!=x.got.size()||memcmp(p,orig.data()+O_DATA+33*e,33)) { V.insert(i); continue; }
          if(cpl<1||cpl>S.n) continue;
          auto d=S.pr(i).dealt.find(cpl); Bytes cm; { auto &f6=S.fr[1][i]; if(f6.size()>3&&f6[3].sent.size()>=O_DATA+32u*S.t) cm=Bytes(f6[3].sent.begin()+O_DATA,f6[3].sent.begin()+O_DATA+32*S.t); }
          if(d==S.pr(i).dealt.end()||cm.empty()) continue;
          if(cpl==i) continue;
          int sr=share_ref(S,cm,cpl,d->second);
          if(sr==1) V.insert(i); else if(sr==0) V.insert(cpl);
        }
      }
      if(x.seq==7) { if(memcmp(m+O_DATA,"OK",2)) V.insert(i); }
    }
    if(!V.empty()) {
      R.hit("K07.visible");
      if(ok) R.viol("K07.undetected",fmt("coordinator accepted call %llu although peer %d visibly deviated",(unsigned long long)c.k,*V.begin()));
      else if(!oddlen && sh_tp_cheaters(S.tp().tp)<sh_tp_cheater_max(S.tp().tp)) for(int p:V) if(!S.named.count(p)) {
        string rep; for(auto &s:S.reports) rep+=s+"; ";
        R.viol("K07.unnamed",fmt("peer %d deviated in call %llu (error %d) but is not named: %s",p,(unsigned long long)c.k,c.ret,rep.c_str())); break; }
    }
  }
}

// ---------- oracles over the finished run ----------
static void o_shares(World&w,Sess&S) {  // K01
  vector<int> idx; vector<A32> val; Bytes first;
  for(int i=1;i<=S.n;i++) { Node&N=S.pr(i); if(N.cheats||!N.has_share) continue;
    if(N.share[0]!=i) { w.R.viol("K01.index",fmt("peer %d holds share number %d",i,N.share[0])); continue; }
    A32 v; memcpy(v.data(),N.share+1,32);
    if(!ref::canonical(v.data())) w.R.viol("K01.canonical",fmt("share of peer %d is not reduced",i));
    // the share must match the sum of all broadcast commitments
    A32 rhs{}; bool okc=true; Bytes all;
    for(int d=1;d<=S.n;d++) { Bytes cm=commits_seen(S,i,d); if(cm.empty()) { okc=false; break; } all.insert(all.end(),cm.begin(),cm.end());
      A32 pw=ref::sc(1); for(int k=0;k<S.t;k++) { A32 x; if(!is_zero(cm.data()+32*k)) { if(!ref::smul(x,pw,cm.data()+32*k)) { okc=false; break; } if(is_zero(rhs.data())) rhs=x; else ref::padd(rhs,rhs.data(),x.data()); } pw=ref::mul(pw,ref::sc((u64)i)); } }
    A32 lhs; if(!ref::base(lhs,v)) lhs.fill(0);
    if(!okc) w.R.viol("K01.commit",fmt("peer %d obtained a share although a broadcast commitment is unusable or missing",i));
    else if(lhs!=rhs) w.R.viol("K01.commit",fmt("share of peer %d does not match the broadcast commitments",i));
    if(first.empty()) first=all; else if(first!=all) w.R.viol("K01.split",fmt("peer %d saw other commitments than another peer with a share",i));
    idx.push_back(i); val.push_back(v);
  }
  if(!idx.empty()) w.R.hit("K01.holders",idx.size());
  if(idx.size()>(size_t)S.t) { w.R.hit("K01.overdetermined"); if(!ref::on_poly(idx,val,S.t)) w.R.viol("K01.poly","shares of honest peers do not lie on one polynomial of the agreed threshold"); }
  if(idx.size()>=(size_t)S.t && S.t>=3) { // the agreed threshold is really needed: fewer shares do not determine the key
    vector<int> a(idx.begin(),idx.begin()+S.t), b(idx.begin(),idx.begin()+S.t-1); vector<A32> x(val.begin(),val.begin()+S.t), y(val.begin(),val.begin()+S.t-1);
    if(ref::interp0(a,x)==ref::interp0(b,y)) w.R.viol("K01.degree","fewer shares than the threshold determine the key");
  }
}
static void o_honest(World&w,Sess&S) {  // K02
  Node&T=S.tp();
  if(T.startfail||T.failed) { w.R.viol("K02.tpfail",fmt("coordinator failed with %d at call %llu in an honest session n=%d t=%d",T.ret,(unsigned long long)T.ncalls,S.n,S.t)); }
  else if(!T.finished) w.R.viol("K02.stuck",fmt("coordinator did not finish an honest session (call %llu)",(unsigned long long)T.ncalls));
  for(int i=1;i<=S.n;i++) { Node&N=S.pr(i);
    if(N.failed) w.R.viol("K02.peerfail",fmt("peer %d failed with %d in an honest session",i,N.ret));
    else if(!N.finished) w.R.viol("K02.stuck",fmt("peer %d did not finish an honest session",i));
    else if(!N.has_share) w.R.viol("K02.noshare",fmt("peer %d finished without a share",i)); }
  if(!S.named.empty()||!S.reports.empty()) w.R.viol("K02.blame",fmt("honest session reports: %s",S.reports.empty()?"?":S.reports[0].c_str()));
}
static void o_altered(World&w,Sess&S) { // K03
  bool consumed=false;
  for(auto &c:S.calls) for(auto &x:c.in) if(x.altered) { 
    // a genuine opening message of another coordinator carries its own key; the peer then simply takes part in that other session
    if(c.node>0&&x.seq==0) { bool genuine=false; for(auto &o:w.ss) if(o.get()!=&S) for(int i=1;i<=o->n;i++) if(!o->fr[0][i].empty()&&o->fr[0][i][0].orig==x.got) genuine=true; if(genuine) { w.R.hit("K03.otheropening"); continue; } }
    consumed=true; w.R.hit("K03.consumed");
    // likewise a peer cannot know which index was meant for it; the coordinator has to refuse its next message
    if(c.node>0&&x.seq==1&&c.ret==0) { bool genuine=false; for(int i=1;i<=S.n;i++) if(S.fr[0][i].size()>1&&S.fr[0][i][1].orig==x.got) genuine=true;
      if(genuine) { w.R.hit("K03.otherindex"); if(S.tp().finished&&!S.tp().failed) w.R.viol("K03.success","session succeeded although a peer acted under another peer's index"); continue; } }
    if(c.ret==0) { size_t d=0; u64 l=(u64)x.link; auto &v=S.fr[c.node==0?1:0][l]; string what="no message was due"; if(x.seq<v.size()) { const Bytes&o=v[x.seq].sent; while(d<o.size()&&d<x.got.size()&&o[d]==x.got[d]) d++; what=fmt("first difference at byte %zu of %zu",d,o.size()); }
      w.R.viol("K03.accepted",fmt("%s accepted altered input (link %d, message %llu: %s)",c.node?fmt("peer %d",c.node).c_str():"coordinator",x.link,(unsigned long long)x.seq,what.c_str())); return; } }
  if(consumed && S.tp().finished && !S.tp().failed) { for(auto &c:S.calls) if(c.node==0) for(auto &x:c.in) if(x.altered) { w.R.viol("K03.success","session succeeded at the coordinator although it consumed altered traffic"); return; } }
}
static void o_blame(World&w,Sess&S) {   // K06
  // a peer that was handed another peer's index (or another session) does not follow this session's protocol
  for(auto &c:S.calls) if(c.node>0) for(auto &x:c.in) if(x.altered&&x.seq<=1) S.suspects.insert(c.node);
  for(int p:S.named) if(!S.suspects.count(p)) { string rep; for(auto &s:S.reports) rep+=s+"; "; w.R.viol("K06.blamed",fmt("honest peer %d is named as a cheater: %s",p,rep.c_str())); return; }
  if(!S.named.empty()) w.R.hit("K06.named");
}
static void o_dealer(World&w,Sess&S) {  // K05
  bool must=false;
  for(int j=1;j<=S.n;j++) { Node&N=S.pr(j); if(S.fr[1][j].size()<=5) continue; const Bytes&m9=S.fr[1][j][5].orig; if(m9.size()<=O_DATA||m9[O_MSGNO]!=9) continue;
    if(N.cheats) { bool only_dealing=true; for(auto &d:S.devs) if(d.peer==j&&d.seq>3&&d.kind!="share") only_dealing=false; if(!only_dealing) continue; }
    set<int> got; for(int k=0;k<m9[O_DATA]&&O_DATA+1+k<(int)m9.size();k++) got.insert(m9[O_DATA+1+k]);
    for(int d=1;d<=S.n;d++) if(d!=j) { auto it=S.pr(d).dealt.find(j); Bytes cm=commits_seen(S,j,d); if(it==S.pr(d).dealt.end()||cm.empty()) continue;
      int r=share_ref(S,cm,j,it->second);
      if(r==1) { w.R.hit("K05.mismatch"); if(!N.cheats) must=true; if(!got.count(d)) w.R.viol("K05.missed",fmt("peer %d did not complain about dealer %d whose share does not match",j,d)); }
      if(r==0) { w.R.hit("K05.match"); if(got.count(d)) w.R.viol("K05.false",fmt("peer %d complained about dealer %d whose share matches",j,d)); }
      got.erase(d); }
    for(int g:got) w.R.viol("K05.false",fmt("peer %d complained about %d",j,g));
  }
  if(must) {
    if(S.tp().finished&&!S.tp().failed) w.R.viol("K05.success","session succeeded although an honest peer received a bad share");
    for(int i=1;i<=S.n;i++) if(!S.pr(i).cheats&&S.pr(i).has_share) w.R.viol("K05.share",fmt("peer %d obtained a share although an honest peer received a bad share",i));
  }
}
static void o_gate(World&w,Sess&S) {    // K08
  bool tp_ok=false; for(auto &f:S.fr[0][1]) if(f.sent.size()==O_DATA+2&&f.sent[O_MSGNO]==21&&!memcmp(f.sent.data()+O_DATA,"OK",2)) tp_ok=true;
  bool comp=has_complaints(S);
  for(int i=1;i<=S.n;i++) { Node&N=S.pr(i);
    if(N.has_share) { w.R.hit("K08.share");
      if(!tp_ok) w.R.viol("K08.share",fmt("peer %d obtained a share without approval",i));
      if(N.approval.size()!=O_DATA+2||memcmp(N.approval.data()+O_DATA,"OK",2)) w.R.viol("K08.share",fmt("peer %d obtained a share without having seen an approval",i));
      if(comp) w.R.viol("K08.share",fmt("peer %d obtained a share in a session with complaints",i));
      if(N.failed) w.R.viol("K08.share",fmt("peer %d obtained a share after an error",i)); }
    // a peer that learned of a complaint must not go on to confirm the session
    bool knows=false; for(auto &c:S.calls) if(c.node==i&&c.ret==0) for(auto &x:c.in) if(x.seq==7&&x.got.size()>O_DATA&&x.got[O_MSGNO]==10) { size_t isz=(x.got.size()-O_DATA)/S.n; for(int k=0;k<S.n;k++) if(x.got[O_DATA+k*isz+O_DATA]) knows=true; }
    if(knows&&!N.cheats) { w.R.hit("K08.complaint_known"); for(auto &f:S.fr[1][i]) if(f.orig.size()>=O_DATA&&f.orig[O_MSGNO]==20) { w.R.viol("K08.complaint",fmt("peer %d confirms its transcript although a complaint was broadcast",i)); break; } }
  }
  if(S.tp().finished&&!S.tp().failed) w.R.hit("K08.tpok");
}

// freshness window model
enum { ACC=0, REF=1, OPEN=2 };
static int win_abs(i64 lo,i64 hi,u64 ts,u64 eps) { // relative to own clock, read somewhere between lo and hi
  bool a=false,r=false;
  for(i64 now: {lo,hi}) { __int128 d=(__int128)ts-now,e=eps; if(d>e||d<-e) r=true; else if(d==e||d==-e) a=r=true; else a=true; }
  if((__int128)ts>=lo&&(__int128)ts<=hi) a=true;
  return a&&r?OPEN:r?REF:ACC;
}
static int win_rel(u64 &last,u64 ts,u64 eps) {
  if(ts<last) return REF;
  if(ts-last>eps) return REF;
  if(ts-last==eps) { last=ts; return OPEN; }
  last=ts; return ACC;
}
static void o_fresh(World&w,Sess&S) {   // K04
  for(auto &c:S.calls) { Node&N=*S.nodes[c.node]; if(N.ts_dead||c.in.empty()) continue;
    int exp=ACC; i64 lo=c.clk0/1000,hi=c.clk1/1000; string why;
    auto apply=[&](int r,const char*what,u64 ts,u64 ref){ if(r==REF&&exp!=REF) { exp=REF; why=fmt("%s ts=%lld ref=%lld eps=%llu",what,(long long)ts-(long long)S.epoch,(long long)ref-(long long)S.epoch,(unsigned long long)S.eps); } else if(r==OPEN&&exp==ACC) exp=OPEN; };
    for(auto &x:c.in) { const Bytes&g=x.got; if(g.size()<O_DATA) continue; size_t st,isz=inner_size(S,c.node?0:1,g[O_MSGNO],g.size(),st);
      if(c.node==0) { size_t cnt=(g[O_MSGNO]==4||g[O_MSGNO]==5||g[O_MSGNO]==8)?S.n:1;
        for(size_t k=0;k<cnt;k++) { u64 ts=rd64(g.data()+k*isz+O_TS),ref=N.m_last[x.link]; apply(win_rel(N.m_last[x.link],ts,S.eps),fmt("from peer %d",x.link).c_str(),ts,ref); } }
      else {
        if(x.seq==0) { u64 ts=rd64(g.data()+O_TS); apply(win_abs(lo,hi,ts,S.eps),"session start",ts,(u64)lo); N.m_tp_last=ts; continue; }
        bool tpmsg=!(g[O_MSGNO]==4||g[O_MSGNO]==5||g[O_MSGNO]==8);
        if(tpmsg) { u64 ts=rd64(g.data()+O_TS),ref=N.m_tp_last; apply(win_rel(N.m_tp_last,ts,S.eps),"from coordinator",ts,ref); }
        if(!tpmsg||st>0) for(int k=0;k<S.n;k++) { u64 ts=rd64(g.data()+st+k*isz+O_TS); u64&l=N.m_last[k+1];
          if(l==0) { apply(win_abs(lo,hi,ts,S.eps),fmt("relayed from %d (first)",k+1).c_str(),ts,(u64)lo); l=ts; }
          else { u64 ref=l; apply(win_rel(l,ts,S.eps),fmt("relayed from %d",k+1).c_str(),ts,ref); } }
      } }
    const char*who=c.node?"peer":"coordinator";
    if(exp==ACC) { w.R.hit("K04.accept"); if(c.ret!=0) { w.R.viol("K04.refused",fmt("%s %d refused (%d) call %llu although all timestamps are fresh",who,c.node,c.ret,(unsigned long long)c.k)); } }
    if(exp==REF) { w.R.hit("K04.refuse"); if(c.ret==0) { w.R.viol("K04.accepted",fmt("%s %d accepted call %llu: %s",who,c.node,(unsigned long long)c.k,why.c_str())); } }
    if(exp==OPEN) w.R.hit("K04.boundary");
    if(exp!=ACC||c.ret!=0) N.ts_dead=c.ret!=0||exp==REF;
  }
}
void dkg_oracles(World&w) {
  for(auto &sp:w.ss) { Sess&S=*sp; if(!S.tp().started&&!S.tp().startfail) continue;
    if(w.on("K01")) o_shares(w,S);
    if(w.on("K02")) o_honest(w,S);
    if(w.on("K03")) o_altered(w,S);
    if(w.on("K04")) o_fresh(w,S);
    if(w.on("K05")) o_dealer(w,S);
    if(w.on("K06")) o_blame(w,S);
    if(w.on("K08")) o_gate(w,S);
    w.R.hit(S.tp().failed?"sess.fail":S.tp().finished?"sess.ok":"sess.stalled");
  }
}

// ---------- plan generators ----------
static void g_base(Plan&p,Rng&r,bool th,int maxn=6) {
  int n=3; u64 x=r.below(10); if(x<4) n=3; else if(x<7) n=4; else if(x<9) n=5; else n=(int)r.range(5,th?maxn+3:maxn);
  int t=(int)r.range(2,n-1); if(r.chance(1,3)) t=2;
  p.p["n"]=n; p.p["t"]=t; p.p["libseed"]=(i64)(r.next()>>2); p.p["eps"]=120000; p.p["sessions"]=1; p.p["log"]=r.chance(1,4);
  p.p["fill"]=(i64)r.pick(vector<i64>{0xa5,0,0xff,0x3c,1});
}
// now and then a group larger than the usual handful
// clocks that pass 31 or 32 bits, devices whose clock starts in 1970, very long windows
static void g_era(Plan&p,Rng&r) {
  bool clocks=false; for(auto &f:p.f) if(f.kind.compare(0,6,"clock.")==0&&f.kind!="clock.tick"&&f.get("val")<0) clocks=true;
  if(r.chance(1,5)) p.p["epoch"]=r.pick(vector<i64>{2147483640,4294967290,4294967291,8589934590,17179869184});
  else if(!clocks&&r.chance(1,10)) p.p["epoch"]=r.pick(vector<i64>{1,10,50,100,1000});
  if(r.chance(1,20)) p.p["eps"]=r.pick(vector<i64>{2147483648LL,4294967297LL,1LL<<40,INT64_MAX,-1});
}
static int g_large(Plan&p,Rng&r,bool th,int lo,int hi) { int n=(int)r.range(lo,th?hi*3/2:hi); p.p["n"]=n; p.p["t"]=r.chance(1,2)?r.range(2,4):r.range(2,std::min(n-1,12)); return n; }
static void g_lat(Plan&p,Rng&r,int s,int n,i64 maxms) {
  vector<i64>&v=p.sched[s]; int mode=(int)r.below(4); int cnt=18*n;
  for(int i=0;i<cnt;i++) { i64 l=0; switch(mode) { case 0: l=0; break; case 1: l=r.range(0,maxms); break; case 2: l=r.chance(1,6)?r.range(0,maxms*4):r.range(0,maxms/4); break; case 3: l=(i64)(r.next()&3)?0:r.range(0,maxms); } v.push_back(l); }
  if(r.chance(1,2)) { p.p["frag"]=r.range(2,5); p.p["fraggap"]=r.range(0,maxms); }
}
static int N(Plan&p,int s=0) { return (int)p.get(fmt("n%d",s).c_str(),p.get("n")); }
static void g_net(Plan&p,Rng&r,int s,bool timing_ok) {
  int n=N(p,s); i64 dir=r.below(2), link=r.range(1,n), seq=r.range(0,dir?7:8);
  switch(r.below(timing_ok?16:14)) {
    case 0: case 1: case 2: { // anywhere, but favour small offsets and the message end
      i64 off=r.chance(1,2)?r.range(0,300):r.range(0,2000); p.add("net.flip",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"off",off},{"mask",1<<r.below(8)}}); break; }
    case 3: p.add("net.trunc",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"val",r.range(1,200)}}); break;
    case 4: p.add("net.extend",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"val",r.range(1,300)}}); break;
    case 5: p.add("net.drop",{{"s",s},{"dir",dir},{"link",link},{"seq",seq}}); break;
    case 6: p.add("net.dup",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"val",r.range(0,100)}}); break;
    case 7: p.add("net.replay",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"slink",r.chance(1,2)?link:r.range(1,n)},{"sseq",seq?r.range(0,seq-1):0}}); break;
    case 8: p.add("net.reflect",{{"s",s},{"dir",dir},{"link",link},{"seq",seq}}); break;
    case 9: p.add("net.other",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"slink",r.range(1,n)}}); break;
    case 10: case 11: p.add("net.swap",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"a",(i64)r.below(n)},{"b",(i64)r.below(n)}}); break;
    case 12: p.add("net.hdr",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"inner",(i64)r.below(n)},{"field",(i64)r.below(6)},{"val",r.range(0,40)}}); break;
    case 13: p.add("net.mixold",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"slink",r.range(1,n)},{"a",(i64)r.below(n)}}); break;
    case 14: p.add("net.delay",{{"s",s},{"dir",dir},{"link",link},{"seq",seq},{"val",r.range(1,20000)}}); break;
    case 15: { i64 f=r.range(0,500); p.add("net.part",{{"s",s},{"dir",dir},{"link",link},{"from",f},{"to",f+r.range(1,5000)}}); break; }
  }
}
static i64 rndpeer(Rng&r,int n,i64 not_) { i64 x; do x=r.range(1,n); while(x==not_); return x; }
// misbehaviour of a validly signing peer
static void g_byz(Plan&p,Rng&r,int s,i64 peer,const string&focus) {
  int n=N(p,s); vector<string> k;
  if(focus=="deal") k={"share","share","share","share","commit","commit","commitbad"};
  else if(focus=="blame") k={"hdr","hdr","body","sig","ltsig","nosign","share","commit","complain","complain","dupcomplain","badcomplain","overcomplain","hide","reveal","transcript","ack","silent","noisepk","share+hide"};
  else k={"share","share","commit","complain","hide","transcript","ack","body","share+hide"};
  string x=r.pick(k); i64 seq=r.range(0,7);
  auto inner=[&]{ return (i64)r.below(n); };
  if(x=="share"||x=="share+hide") { i64 mode=r.pick(vector<i64>{0,0,1,2,2,3,4,5,6,7}); int cnt=r.chance(1,2)?1:(int)r.range(1,n-1); set<i64> done; for(int c=0;c<cnt;c++) { i64 to=rndpeer(r,n,peer); if(!done.insert(to).second) continue; p.add("byz.share",{{"s",s},{"peer",peer},{"to",to},{"mode",mode},{"val",mode==4?r.range(0,n+1):r.range(1,100000)}}); } if(x!="share") p.add("byz.hide",{{"s",s},{"peer",peer}}); }
  else if(x=="commit") p.add("byz.commit",{{"s",s},{"peer",peer},{"k",r.range(0,5)},{"mode",r.pick(vector<i64>{0,0,1,2,3,4})},{"val",r.range(0,10000)},{"mask",1<<r.below(8)}});
  else if(x=="commitbad") p.add("byz.commit",{{"s",s},{"peer",peer},{"k",r.range(0,5)},{"mode",1}});
  else if(x=="hdr") { i64 f=r.below(6); i64 v=f==4?(r.chance(1,2)?-1:1)*r.range(1000000,2000000):f==1?r.range(0,5000):r.range(0,255); p.add("byz.hdr",{{"s",s},{"peer",peer},{"seq",seq},{"inner",inner()},{"field",f},{"val",v}}); }
  else if(x=="body") p.add("byz.body",{{"s",s},{"peer",peer},{"seq",seq},{"inner",inner()},{"off",r.range(0,400)},{"mask",1<<r.below(8)}});
  else if(x=="sig") p.add("byz.sig",{{"s",s},{"peer",peer},{"seq",seq},{"inner",inner()},{"off",r.range(0,63)},{"mask",1<<r.below(8)}});
  else if(x=="ltsig") p.add("byz.ltsig",{{"s",s},{"peer",peer},{"off",r.range(0,63)},{"mask",1<<r.below(8)}});
  else if(x=="nosign") p.add("byz.nosign",{{"s",s},{"peer",peer},{"seq",seq},{"inner",inner()},{"off",r.range(0,400)},{"mask",1<<r.below(8)}});
  else if(x=="complain") { int cnt=(int)r.range(1,n>3?2:1); for(int c=0;c<cnt;c++) p.add("byz.complain",{{"s",s},{"peer",peer},{"mode",0},{"val",rndpeer(r,n,peer)}}); }
  else if(x=="dupcomplain") p.add("byz.complain",{{"s",s},{"peer",peer},{"mode",1},{"val",rndpeer(r,n,peer)}});
  else if(x=="badcomplain") p.add("byz.complain",{{"s",s},{"peer",peer},{"mode",0},{"val",r.pick(vector<i64>{0,n+1,255,128,127})}});
  else if(x=="overcomplain") p.add("byz.complain",{{"s",s},{"peer",peer},{"mode",r.chance(1,3)?3:2},{"val",r.chance(1,2)?n+1:r.range(n+1,255)}});
  else if(x=="hide") p.add("byz.hide",{{"s",s},{"peer",peer}});
  else if(x=="reveal") { p.add("byz.share",{{"s",s},{"peer",peer},{"to",rndpeer(r,n,peer)},{"mode",0},{"val",r.range(1,1000)}}); p.add("byz.reveal",{{"s",s},{"peer",peer},{"mode",(i64)r.below(3)},{"k",(i64)r.below(4)},{"val",r.range(0,n+1)},{"mask",1<<r.below(8)}}); }
  else if(x=="transcript") p.add("byz.transcript",{{"s",s},{"peer",peer},{"off",r.range(0,31)},{"mask",1<<r.below(8)}});
  else if(x=="ack") p.add("byz.ack",{{"s",s},{"peer",peer},{"mode",(i64)r.below(2)},{"off",(i64)r.below(2)},{"mask",1<<r.below(8)}});
  else if(x=="silent") p.add("byz.silent",{{"s",s},{"peer",peer},{"seq",seq}});
  else if(x=="noisepk") p.add("byz.noisepk",{{"s",s},{"peer",peer},{"mode",(i64)r.below(3)},{"val",r.range(0,100)}});
}
static vector<i64> cheaters(Rng&r,int n,int t) { int m=(int)r.range(1,std::max(1,std::min(t-1,n-2))); if(r.chance(1,2)) m=1; vector<i64> v; for(int i=1;i<=n;i++) v.push_back(i); r.shuffle(v); v.resize(m); return v; }

static Plan gen(Rng&r,const string&check,u64 seed,u64 index,bool th) {
  (void)seed; (void)index;
  string id=check=="K14"?r.pick(vector<string>{"K01","K02","K03","K05","K06","K08","K09","K09","K12"}):check;     // disturbed in all the ways
  Plan p; g_base(p,r,th); int n=N(p),t=(int)p.get("t");
  if(id=="K01") {
    if(r.chance(1,100)) { n=r.chance(1,8)?g_large(p,r,th,33,38):g_large(p,r,th,10,28); t=(int)p.get("t"); }
    g_lat(p,r,0,n,400);
    u64 k=r.below(10);
    if(k>=3) for(i64 c:cheaters(r,n,t)) { g_byz(p,r,0,c,k<9?"deal":"any"); if(r.chance(1,3)) p.add("byz.hide",{{"s",0},{"peer",c}}); }
    if(k>=8) g_net(p,r,0,true);
    if(k==2) { p.add("proc.crash",{{"s",0},{"node",r.range(0,n)},{"at",r.range(0,3000)}}); }
  } else if(id=="K02") {
    if(r.chance(1,100)) { n=r.chance(1,5)?g_large(p,r,th,33,40):g_large(p,r,th,10,28); t=(int)p.get("t"); }
    if(check=="K02"&&r.chance(1,1500)) { n=(int)r.pick(vector<i64>{65,100,127,128,128}); t=(int)r.range(2,4); p.p["n"]=n; p.p["t"]=t; }
    if(r.chance(1,3)) { p.p["sessions"]=2; p.p["start1"]=r.range(0,400); p.p["n1"]=r.range(3,4); p.p["t1"]=2; p.p["samelt"]=r.below(2); g_lat(p,r,1,4,300); }
    p.p["eps"]=r.pick(vector<i64>{60,120,600,120000}); i64 e=p.p["eps"]*1000;
    i64 ml=std::min<i64>(e/200,8000); g_lat(p,r,0,n,r.chance(1,2)?ml:200); if(p.get("fraggap")>ml) p.p["fraggap"]=ml;
    i64 base=r.range(-5000,5000); p.add("clock.off",{{"s",0},{"node",0},{"val",base}});
    for(int i=1;i<=n;i++) if(r.chance(2,3)) p.add("clock.off",{{"s",0},{"node",i},{"val",base+r.range(0,std::min<i64>(e/8,60000))}}); else p.add("clock.off",{{"s",0},{"node",i},{"val",base}});
    if(r.chance(1,3)) p.add("clock.tick",{{"s",0},{"node",r.range(1,n)},{"val",r.range(1,40)}});
    if(r.chance(1,4)) p.add("proc.stall",{{"s",0},{"node",r.range(0,n)},{"at",r.range(0,2000)},{"val",r.range(1,std::min<i64>(e/20,10000))}});
    if(r.chance(1,4)) { i64 f=r.range(0,1000); p.add("net.part",{{"s",0},{"dir",(i64)r.below(2)},{"link",r.range(1,n)},{"from",f},{"to",f+r.range(1,std::min<i64>(e/20,10000))}}); }
    g_era(p,r);
  } else if(id=="K03") {
    if(r.chance(1,5)) { p.p["sessions"]=2; p.p["n1"]=n; p.p["t1"]=t; p.p["samelt"]=1; g_lat(p,r,0,n,50); i64 dir=r.below(2); p.add("net.xsess",{{"s",0},{"os",1},{"dir",dir},{"link",r.range(1,n)},{"seq",r.range(0,dir?7:8)}}); p.p["start0"]=r.range(1,3000); }
    else { g_lat(p,r,0,n,100); int c=r.chance(2,3)?1:(int)r.range(2,3); for(int i=0;i<c;i++) g_net(p,r,0,false); }
    if(r.chance(1,8)) g_byz(p,r,0,r.range(1,n),"deal"); // so that the complaint phase is under attack as well
  } else if(id=="K04") {
    p.p["eps"]=r.range(1,40); i64 e=p.p["eps"]*1000; g_lat(p,r,0,n,r.pick(vector<i64>{20,e/40,e/10,e/4,e,e*3/2})); p.p.erase("frag");
    for(int i=0;i<=n;i++) if(r.chance(1,3)) p.add("clock.off",{{"s",0},{"node",i},{"val",r.chance(1,2)?r.range(-e*5/4,e*5/4):r.range(-3000,3000)}});
    int c=(int)r.below(3); for(int i=0;i<c;i++) switch(r.below(6)) {
      case 0: p.add("clock.jump",{{"s",0},{"node",r.range(0,n)},{"at",r.range(0,e*2)},{"val",r.range(-e*2,e*2)}}); break;
      case 1: p.add("clock.tick",{{"s",0},{"node",r.range(0,n)},{"val",r.range(1,e/8+1)}}); break;
      case 2: p.add("proc.stall",{{"s",0},{"node",r.range(0,n)},{"at",r.range(0,e)},{"val",r.range(1,e*2)}}); break;
      case 3: { i64 dir=r.below(2); p.add("net.delay",{{"s",0},{"dir",dir},{"link",r.range(1,n)},{"seq",r.range(0,8)},{"val",r.range(e/2,e*2)}}); break; }
      case 4: { i64 v=r.pick(vector<i64>{-1,1,-2,2,e/1000-1,e/1000,e/1000+1,e/1000+2,-e/1000,-e/1000-1,e/500,1000000,-1000000}); p.add("byz.hdr",{{"s",0},{"peer",r.range(1,n)},{"seq",r.range(0,7)},{"inner",(i64)r.below(n)},{"field",4},{"val",v}}); break; }
      case 5: p.add("clock.jumpcall",{{"s",0},{"node",r.range(0,n)},{"at",r.range(1,12)},{"val",r.range(-e*2,e*2)}}); break;
    }
    if(r.chance(1,6)) p.add("clock.drift",{{"s",0},{"node",r.range(0,n)},{"val",r.range(-200000,400000)}});
    g_era(p,r);
  } else if(id=="K05") {
    g_lat(p,r,0,n,100);
    if(r.chance(9,10)) for(i64 c:cheaters(r,n,t)) { g_byz(p,r,0,c,"deal"); if(r.chance(1,3)) g_byz(p,r,0,c,"deal"); if(r.chance(1,4)) p.add("byz.hide",{{"s",0},{"peer",c}}); }
  } else if(id=="K06"||id=="K07") {
    if(r.chance(1,200)) { n=r.chance(1,8)?g_large(p,r,th,33,36):g_large(p,r,th,9,18); t=(int)p.get("t"); }
    g_lat(p,r,0,n,100); p.p["cmax"]=r.chance(1,4)?0:n*n*8;
    for(i64 c:cheaters(r,n,t+1)) { g_byz(p,r,0,c,"blame"); if(r.chance(1,3)) g_byz(p,r,0,c,"blame"); }
    if(r.chance(1,4)) { i64 c=r.range(1,n); p.add("net.flip",{{"s",0},{"dir",1},{"link",c},{"seq",r.range(0,7)},{"off",r.range(0,600)},{"mask",1<<r.below(8)}}); }
    if(r.chance(1,6)) g_net(p,r,0,true);
  } else if(id=="K08") {
    g_lat(p,r,0,n,100);
    u64 k=r.below(10);
    if(k<6) for(i64 c:cheaters(r,n,t)) { switch(r.below(6)) { case 0: p.add("byz.transcript",{{"s",0},{"peer",c},{"off",r.range(0,31)},{"mask",1<<r.below(8)}}); break; case 1: p.add("byz.ack",{{"s",0},{"peer",c},{"mode",(i64)r.below(2)},{"off",(i64)r.below(2)},{"mask",1<<r.below(8)}}); break;
        case 2: p.add("byz.complain",{{"s",0},{"peer",c},{"mode",0},{"val",rndpeer(r,n,c)}}); break; case 3: g_byz(p,r,0,c,"deal"); break; default: g_byz(p,r,0,c,"blame"); } }
    if(k>=4) { i64 dir=r.below(2), link=r.range(1,n), seq=r.range(dir?0:1,dir?7:8); // an altered message followed by the right one, and a driver that carries on
      if(r.chance(2,3)) p.add("net.flip",{{"s",0},{"dir",dir},{"link",link},{"seq",seq},{"off",r.range(0,800)},{"mask",1<<r.below(8)}}); else g_net(p,r,0,true);
      p.add("net.retx",{{"s",0},{"dir",dir},{"link",link},{"seq",seq},{"val",r.range(0,50)}}); }
    for(int i=0;i<=n;i++) if(r.chance(2,3)) p.add("drv.ignore",{{"s",0},{"node",i},{"force",(i64)r.below(2)}});
    p.p["sendno"]=r.below(2);
  } else if(id=="K09") {
    if(r.chance(1,100)) { n=g_large(p,r,th,8,16); t=(int)p.get("t"); }
    g_lat(p,r,0,n,100); p.p["log"]=r.below(2); p.p["cmax"]=r.chance(1,2)?0:r.range(1,6);
    int c=(int)r.range(1,3); for(int i=0;i<c;i++) switch(r.below(10)) {
      case 0: case 1: g_net(p,r,0,true); break;
      case 2: case 3: case 4: g_byz(p,r,0,r.range(1,n),"blame"); break;
      case 5: case 6: { i64 f=r.below(6); p.add("evil.hdr",{{"s",0},{"link",r.range(1,n)},{"seq",r.range(0,8)},{"inner",r.chance(1,2)?-1:(i64)r.below(n)},{"field",f},{"val",f==4?r.range(-100000,100000):r.range(0,300)}}); break; }
      case 7: { i64 sq=r.range(0,8); p.add("evil.body",{{"s",0},{"link",r.range(1,n)},{"seq",sq},{"inner",r.chance(1,3)?-1:(i64)r.below(n)},{"off",sq==0?r.range(64,65):r.chance(1,2)?r.range(0,4):r.range(0,500)},{"set",r.chance(1,2)?-1:r.pick(vector<i64>{0,1,2,3,5,127,128,129,255})},{"mask",1<<r.below(8)}}); break; }
      case 8: p.add("evil.fill",{{"s",0},{"link",r.range(1,n)},{"seq",r.range(0,8)},{"inner",(i64)r.below(n)},{"val",r.pick(vector<i64>{0,1,2,3,255})}}); break;
      case 9: p.add("proc.crash",{{"s",0},{"node",r.range(0,n)},{"at",r.range(0,500)},{"release",1}}); break;
    }
    if(r.chance(1,6)) p.add("evil.storm",{{"s",0},{"link",r.chance(1,2)?0:r.range(1,n)},{"mode",(i64)r.below(4)},{"peers",(i64)(r.chance(1,2)?-1:r.range(1,(1<<std::min(n,14))-1))},{"count",r.chance(1,2)?n:r.range(1,n+2)},{"val",r.chance(1,2)?0:r.range(1,n)}});
    if(r.chance(1,4)) { p.p["raw"]=1; p.p["rawfit"]=r.below(2); p.p["rawlen"]=r.chance(1,2)?-r.range(1,400):r.range(1,400); if(r.chance(1,2)) p.p["rawcall"]=r.range(0,9); else { p.p["rawpeer"]=r.range(1,n); p.p["rawpeercall"]=r.range(1,11); } }
    for(int i=0;i<=n;i++) if(r.chance(1,2)) p.add("drv.ignore",{{"s",0},{"node",i},{"force",(i64)r.below(2)}});
    if(r.chance(1,3)) { i64 dir=r.below(2); p.add("net.retx",{{"s",0},{"dir",dir},{"link",r.range(1,n)},{"seq",r.range(0,8)},{"val",r.range(0,50)}}); }
  } else if(id=="K10") {
    int ns=(int)r.range(2,3); p.p["sessions"]=ns; p.p["samelt"]=r.below(2);
    for(int s=0;s<ns;s++) { int nn=r.chance(2,3)?3:4; p.p[fmt("n%d",s)]=nn; p.p[fmt("t%d",s)]=r.range(2,nn-1); p.p[fmt("start%d",s)]=r.range(0,300); p.p[fmt("name%d",s)]=r.below(3); g_lat(p,r,s,nn,120);
      if(r.chance(1,2)) { u64 k=r.below(4); if(k==0) g_net(p,r,s,true); else if(k==1) g_byz(p,r,s,r.range(1,nn),"blame"); else if(k==2) p.add("proc.crash",{{"s",s},{"node",r.range(0,nn)},{"at",r.range(0,800)},{"release",(i64)r.below(2)}}); else g_byz(p,r,s,r.range(1,nn),"deal"); } }
  } else if(id=="K11") {
    g_lat(p,r,0,n,100);
    if(r.chance(3,5)) for(i64 c:cheaters(r,n,t)) g_byz(p,r,0,c,r.chance(1,2)?"deal":"blame");
    if(r.chance(1,6)) g_net(p,r,0,true);
    p.p["fill"]=r.range(1,120); p.p["fill2"]=r.range(130,255);
  } else if(id=="K12") {
    g_lat(p,r,0,n,60);
    int c=(int)r.range(1,2); for(int i=0;i<c;i++) p.add("res.mlock",{{"s",0},{"node",r.chance(1,8)?0:r.range(1,n)},{"at",r.pick(vector<i64>{1,1,1,2,2,3,4})}});
    if(r.chance(1,4)) g_byz(p,r,0,r.range(1,n),"deal");
  } else if(id=="K13") {
    int ns=(int)r.range(1,2); p.p["sessions"]=ns; p.p["samelt"]=r.below(2); for(int s=0;s<ns;s++) { p.p[fmt("n%d",s)]=n>4?4:n; p.p[fmt("t%d",s)]=r.range(2,(n>4?4:n)-1); g_lat(p,r,s,n,60); p.p[fmt("start%d",s)]=r.range(0,100); }
    p.p["libseed2"]=(i64)(r.next()>>2);
    int ops=(int)r.range(2,14); for(int i=0;i<ops;i++) p.add("op",{{"kind",(i64)r.below(5)},{"who",(i64)r.below(4)},{"t",r.range(2,4)}});
    if(r.chance(1,3)) p.add("op.mlock",{{"who",(i64)r.below(4)},{"at",r.range(1,3)}});
  }
  return p;
}

// ---------- execution ----------
static void exec_plain(const Plan&p,Result&r) {
  World w(p,r); w.want.insert(p.check); if(p.check=="K14") w.want.insert("heap");
  w.run(); dkg_oracles(w);
  u64 faults=0; for(auto &e:r.fired) faults+=e.second;
  if(p.check=="K02"||p.check=="K14") r.nontrivial=true; else if(p.check=="K01") r.nontrivial=r.probe["K01.holders"]>0; else if(p.check=="K04") r.nontrivial=true; else r.nontrivial=faults>0;
  Sess&S=*w.ss[0];
  r.note=fmt("n=%d t=%d",S.n,S.t);
}

static void exec_k10(const Plan&p,Result&r) {
  vector<u64> joint; vector<bool> ok;
  { World w(p,r); w.want.insert("K10"); w.run(); for(auto &s:w.ss) joint.push_back(s->whist); dkg_oracles(w);
    // sessions announce the same protocol exactly if they were started for the same one
    map<i64,Bytes> dst; map<Bytes,i64> rev;
    for(auto &s:w.ss) if(!s->fr[0][1].empty()&&s->fr[0][1][0].orig.size()>=O_DATA+64) { const u8*b=s->fr[0][1][0].orig.data()+O_DATA+32; Bytes d(b,b+32); i64 nm=p.get(fmt("name%d",s->s).c_str(),0);
      if((dst.count(nm)&&dst[nm]!=d)||(rev.count(d)&&rev[d]!=nm)) r.viol("K10.protocol",fmt("session %d does not announce the protocol it was started for",s->s)); dst[nm]=d; rev[d]=nm; } }
  for(size_t s=0;s<joint.size();s++) { Result r2; World w(p,r2); w.quiet=true; w.only=(int)s; w.run();
    if(w.ss[s]->whist!=joint[s]) r.viol("K10.differs",fmt("session %zu behaves differently next to other sessions than alone",s)); r.h(w.ss[s]->whist); r.sim_ms+=r2.sim_ms; }
  r.nontrivial=joint.size()>1;
}

// the receiver whose dealing this key protects (the key authenticates the encrypted share)
static int key_for(Sess&S,int dealer,const A32&k) {
  for(auto &f:S.fr[1][dealer]) if(f.orig.size()>O_DATA&&f.orig[O_MSGNO]==8) { size_t isz=f.orig.size()/S.n; for(int i=0;i<S.n;i++) { const u8*d=f.orig.data()+isz*i+O_DATA+64; size_t len=isz-O_DATA-64-32; if(crypto_auth_verify(d+len,d,len,k.data())==0) return i+1; } }
  return 0;
}
static void exec_k11(const Plan&p,Result&r) {
  bool diff=false; string where; vector<vector<Bytes>> fr1;
  for(int pass=0;pass<2;pass++) {
    Result r2; World w(p,pass==0?r:r2); w.quiet=pass==1; w.want.insert("K11"); w.dirty=true; if(pass==1) w.fill=(u8)p.get("fill2",0x3c);
    w.run(); Sess&S=*w.ss[0]; size_t ix=0;
    for(int d=0;d<2;d++) for(int i=1;i<=S.n;i++) { vector<Bytes> l; for(auto &f:S.fr[d][i]) { l.push_back(f.orig); }
      if(pass==0) fr1.push_back(l); else { auto &a=fr1[ix]; if(a.size()!=l.size()) { diff=true; where=fmt("number of messages %s peer %d",d?"from":"to",i); } else for(size_t k=0;k<l.size()&&!diff;k++) if(a[k]!=l[k]) { size_t o=0; while(o<l[k].size()&&o<a[k].size()&&a[k][o]==l[k][o]) o++; diff=true; where=fmt("message %zu %s peer %d at byte %zu of %zu",k,d?"from":"to",i,o,l[k].size()); } }
      ix++; }
    if(pass==0) { // secrets on the wire
      struct Sec { A32 v; string what; int owner; int to; bool key; };
      vector<Sec> secs;
      for(auto &np:S.nodes) { Node&N=*np;
        for(size_t k=0;k<N.draws.size();k++) { if(N.id==0&&S.has_sid&&N.draws[k]==S.sid) continue; secs.push_back({N.draws[k],"private random value",N.id,0,false}); }
        for(auto &e:N.dealt_orig) { A32 v; memcpy(v.data(),e.second.data()+1,32); if(!is_zero(v.data())) secs.push_back({v,fmt("share dealt to %d",e.first),N.id,e.first,false}); }
        if(N.has_share) { A32 v; memcpy(v.data(),N.share+1,32); secs.push_back({v,"resulting share",N.id,0,false}); }
        if(N.has_key) { A32 v; memcpy(v.data(),N.sig_sk.data(),32); secs.push_back({v,"session signing key",N.id,0,false}); }
        if(N.id>0&&!S.lt_sk.empty()) { A32 v; memcpy(v.data(),S.lt_sk[N.id].data(),32); secs.push_back({v,"long-term signing key",N.id,0,false}); memcpy(v.data(),S.lt_pk.data()+32*(N.id-1),32); secs.push_back({v,"long-term public key",N.id,0,false}); }
        for(auto &k:N.chan_keys) secs.push_back({k,"channel key",N.id,key_for(S,N.id,k),true});
        // long-term identity signatures may go to the coordinator only
        if(N.id>0&&!S.fr[1][N.id].empty()) { const Bytes&m=S.fr[1][N.id][0].orig; if(m.size()>64) { A32 v; memcpy(v.data(),m.data()+m.size()-64,32); secs.push_back({v,"long-term signature",N.id,-1,false}); memcpy(v.data(),m.data()+m.size()-32,32); secs.push_back({v,"long-term signature",N.id,-1,false}); } }
      }
      std::multimap<u64,size_t> ix8; for(size_t k=0;k<secs.size();k++) { u64 h; memcpy(&h,secs[k].v.data(),8); ix8.insert({h,k}); }
      // complaints that were really broadcast
      set<std::pair<int,int>> contested; // complainer, accused
      for(auto &f:S.fr[0][1]) if(f.sent.size()>O_DATA&&f.sent[O_MSGNO]==10) { size_t isz=(f.sent.size()-O_DATA)/S.n; for(int k=0;k<S.n;k++) { const u8*m=f.sent.data()+O_DATA+k*isz; int c=m[O_DATA]; for(int x=0;x<c&&O_DATA+1+x<(int)isz;x++) contested.insert({k+1,m[O_DATA+1+x]}); } }
      u64 scanned=0;
      for(int d=0;d<2;d++) for(int i=1;i<=S.n;i++) for(auto &f:S.fr[d][i]) { const Bytes&b=f.orig;
        for(size_t o=0;o+24<=b.size();o++) { scanned++; u64 h; memcpy(&h,b.data()+o,8); auto rg=ix8.equal_range(h); for(auto it=rg.first;it!=rg.second;++it) { Sec&s=secs[it->second]; if(memcmp(s.v.data(),b.data()+o,24)) continue;
            if(s.to==-1&&d==1) continue;
            if(s.key&&d==1&&s.owner==i&&b.size()>=O_DATA&&b[O_MSGNO]==11&&o>0&&contested.count({b[o-1],i})&&b[o-1]==s.to) { r.hit("K11.reveal"); continue; }
            r.viol("K11.exposed",fmt("%s of %d appears in message %d %s peer %d",s.what.c_str(),s.owner,b.size()>64?b[O_MSGNO]:-1,d?"from":"to",i)); } } }
      r.hit("K11.scanned",scanned); r.hit("K11.secrets",secs.size());
    }
  }
  if(diff) r.viol("K11.leftover","traffic depends on previous memory contents: "+where);
  r.nontrivial=true;
}

static void exec_k12(const Plan&p,Result&r) {
  struct Rec { u64 outh; int ret; }; map<std::pair<int,u64>,Rec> base; map<int,Bytes> shares;
  { Result r2; World w(p,r2); w.quiet=true; w.skip_mlock=true; w.run(); Sess&S=*w.ss[0]; for(auto &c:S.calls) base[{c.node,c.k}]={c.outhash,c.ret}; for(int i=1;i<=S.n;i++) if(S.pr(i).has_share) shares[i]=Bytes(S.pr(i).share,S.pr(i).share+SHARE); r.h(r2.hash); }
  World w(p,r); w.want.insert("K12"); w.want.insert("lock"); w.run(); Sess&S=*w.ss[0]; bool hit=false;
  for(auto &c:S.calls) { auto it=base.find({c.node,c.k});
    if(c.mlockfail) { hit=true; r.hit("K12.failed_lock"); if(c.ret==0&&(it==base.end()||it->second.outh!=c.outhash)) r.viol("K12.wrong",fmt("node %d call %llu reports success with other output although locking memory failed",c.node,(unsigned long long)c.k)); if(c.ret!=0) r.hit("K12.refused"); }
    else if(c.ret==0&&it!=base.end()&&it->second.ret==0&&it->second.outh!=c.outhash) r.viol("K12.wrong",fmt("node %d call %llu sends other bytes than without the fault",c.node,(unsigned long long)c.k)); }
  for(int i=1;i<=S.n;i++) if(S.pr(i).has_share) { Bytes b(S.pr(i).share,S.pr(i).share+SHARE); if(shares.count(i)&&shares[i]!=b) r.viol("K12.wrong",fmt("peer %d ends with another share than without the fault",i)); }
  r.nontrivial=hit;
}

// coefficients of the polynomial of degree below t through the values of 1,2,...,t
static vector<A32> coefficients(vector<A32> y) {
  vector<A32> c; vector<int> ix; for(size_t i=0;i<y.size();i++) ix.push_back((int)i+1);
  while(!y.empty()) { A32 c0=ref::interp0(ix,y); c.push_back(c0); y.pop_back(); ix.pop_back(); for(size_t i=0;i<y.size();i++) y[i]=ref::mul(ref::sub(y[i],c0),ref::inv(ref::sc((u64)ix[i]))); }
  return c;
}

// requests and dealings of several parties on the same input, key and shares: every draw is to be new
static void k13_use(const Plan&p,Result&r,u64 libseed,map<string,Bytes>&v) {
  enum { n=4 }; seam_ctx cx[4]; u8 key[32],x[8]={'s','a','m','e'},ab[2][SHARE*n]; int k=0;
  for(int i=0;i<4;i++) { memset(&cx[i],0,sizeof cx[i]); cx[i].clock_ms=1700000000000LL; cx[i].fill=0xa5; seam_seed(&cx[i],hash2(libseed,0x9000+i)); for(auto &f:p.f) if(f.kind=="op.mlock"&&f.get("who")==i) cx[i].mlock_fail_at=(u64)f.get("at",1); }
  seam_ctx dealer; memset(&dealer,0,sizeof dealer); dealer.fill=0xa5; seam_seed(&dealer,7); seam_cur=&dealer; sh_keygen(key); for(int i=0;i<2;i++) sh_create_shares(key,n,2,ab[i]);
  auto put=[&](const string&s,const u8*b){ v[s]=Bytes(b,b+32); };
  auto dealt=[&](const char*what,int k,const u8*sh,int t,bool secret){ vector<A32> y(t); for(int i=0;i<n;i++) put(fmt("share %d of %s %d",i+1,what,k),sh+SHARE*i+1); for(int i=0;i<t;i++) memcpy(y[i].data(),sh+SHARE*i+1,32);
    y=coefficients(y); for(int i=secret?0:1;i<t;i++) put(fmt("coefficient %d of %s %d",i,what,k),y[i].data()); };
  for(auto &f:p.f) if(f.kind=="op") { int w=(int)f.get("who")&3,t=(int)f.get("t",2); t=t<2?2:t>n?n:t; seam_cur=&cx[w]; u8 a[32],b[32],sh[SHARE*n],cm[32*n]; u64 mf=cx[w].mlock_failed; k++;
    switch(f.get("kind")) {
      case 0: if(sh_blind(x,8,a,b)==0) { put(fmt("blinding factor %d",k),a); put(fmt("blinded input %d",k),b); } else if(cx[w].mlock_failed==mf) r.viol("K13.refused","blinding fails"); break;
      case 1: sh_keygen(a); put(fmt("key %d",k),a); break;
      case 2: sh_create_shares(key,n,t,sh); dealt("split",k,sh,t,false); break;
      case 3: if(sh_mul_start(ab[0],ab[1],n,t,sh)) { r.viol("K13.refused","starting a multiplication fails"); break; } dealt("product",k,sh,t,false); break;
      default: if(sh_dkg_start(n,t<n?t:n-1,cm,sh)) { if(cx[w].mlock_failed==mf) r.viol("K13.refused","starting a key generation fails"); break; } dealt("dealing",k,sh,t<n?t:n-1,true); for(int i=0;i<(t<n?t:n-1);i++) put(fmt("commitment %d of dealing %d",i,k),cm+32*i);
    }
    if(cx[w].mlock_failed!=mf) r.fire("op.mlock"); r.act(hash2(0x13,hash2((u64)w,(u64)f.get("kind")))); }
  seam_cur=NULL;
}

static void exec_k13(const Plan&p,Result&r) {
  map<string,Bytes> v[2];
  for(int pass=0;pass<2;pass++) {
    Result r2; World w(p,pass==0?r:r2); w.quiet=pass==1; w.want.insert("K13"); if(pass==1) w.libseed=(u64)p.get("libseed2",2);
    w.run(); r.h(r2.hash);
    for(auto &sp:w.ss) { Sess&S=*sp; int s=S.s;
      auto put=[&](const string&k,const u8*b,size_t n){ v[pass][k]=Bytes(b,b+n); };
      if(S.has_sid) put(fmt("session id of session %d",s),S.sid.data(),32);
      if(!S.fr[0][1].empty()) put(fmt("coordinator key of session %d",s),S.fr[0][1][0].orig.data()+O_DATA,32);
      for(int i=1;i<=S.n;i++) { auto &f=S.fr[1][i];
        if(f.size()>0&&f[0].orig.size()>=O_DATA+64) { put(fmt("signing key of peer %d session %d",i,s),f[0].orig.data()+O_DATA,32); put(fmt("channel identity of peer %d session %d",i,s),f[0].orig.data()+O_DATA+32,32); }
        for(int q2=1;q2<=2;q2++) if(f.size()>(size_t)q2) for(int k=0;k<S.n;k++) put(fmt("handshake %d value of peer %d for %d session %d",q2,i,k+1,s),f[q2].orig.data()+k*159+O_DATA,32);
        if(f.size()>3) for(int k=0;k<S.t;k++) put(fmt("polynomial commitment %d of peer %d session %d",k,i,s),f[3].orig.data()+O_DATA+32*k,32);
        int k=0; for(auto &c:S.pr(i).chan_keys) put(fmt("channel key %d of peer %d session %d",k++,i,s),c.data(),32);
        for(auto &d:S.pr(i).dealt_orig) put(fmt("share dealt by %d to %d session %d",i,d.first,s),d.second.data()+1,32);
        vector<A32> y; for(auto &d:S.pr(i).dealt_orig) if(d.first==(int)y.size()+1&&(int)y.size()<S.t) { A32 a; memcpy(a.data(),d.second.data()+1,32); y.push_back(a); }
        if((int)y.size()==S.t) { y=coefficients(y); for(int c=0;c<S.t;c++) put(fmt("coefficient %d of peer %d session %d",c,i,s),y[c].data(),32); }
        if(S.pr(i).has_share) put(fmt("resulting share of %d session %d",i,s),S.pr(i).share+1,32);
      } }
    k13_use(p,pass==0?r:r2,pass==1?(u64)p.get("libseed2",2):(u64)p.get("libseed",1),v[pass]);
    map<Bytes,string> part; bool same=false;
    for(auto &e:v[pass]) { for(size_t o=0;!same&&o+8<=e.second.size();o+=8) { Bytes b(e.second.begin()+o,e.second.begin()+o+8); auto it=part.find(b); if(it!=part.end()) { r.viol("K13.part",fmt("bytes %zu to %zu of %s appear in %s too",o,o+7,e.first.c_str(),it->second.c_str())); same=true; } part[b]=e.first; } }
    map<Bytes,string> seen; for(auto &e:v[pass]) { auto it=seen.find(e.second); if(it!=seen.end()) { r.viol("K13.repeat",fmt("%s equals %s",e.first.c_str(),it->second.c_str())); break; } seen[e.second]=e.first; }
    r.hit("K13.values",v[pass].size());
  }
  map<Bytes,string> all; auto piece=[](const Bytes&b,size_t o){ return Bytes(b.begin()+o,b.begin()+o+8); };
  for(auto &e:v[0]) for(size_t o=0;o+8<=e.second.size();o+=8) all[piece(e.second,o)]=e.first;
  for(auto &e:v[1]) { auto it=all.end(); for(size_t o=0;it==all.end()&&o+8<=e.second.size();o+=8) it=all.find(piece(e.second,o)); if(it!=all.end()) { r.viol("K13.constant",fmt("%s does not depend on the randomness of its session",e.first.c_str())); break; } }
  r.nontrivial=true;
}

CheckDef dkg_checks[]={
  {"K01",gen,exec_plain},{"K02",gen,exec_plain},{"K03",gen,exec_plain},{"K04",gen,exec_plain},{"K05",gen,exec_plain},{"K06",gen,exec_plain},{"K07",gen,exec_plain},
  {"K08",gen,exec_plain},{"K09",gen,exec_plain},{"K10",gen,exec_k10},{"K11",gen,exec_k11},{"K12",gen,exec_k12},{"K13",gen,exec_k13},{"K14",gen,exec_plain},{NULL,NULL,NULL}};
