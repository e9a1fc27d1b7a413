// Discrete-event simulation of coordinated key generation sessions.
#pragma once
#include "core.h"
#include <queue>
#include <memory>

struct Frame { Bytes orig, sent; i64 at=0; };       // as produced by the library / as it left the sender
struct Consume { int link; u64 seq; Bytes got; bool altered; };
struct Call { int node; int ret; u64 k; i64 now; i64 clk0, clk1; u64 outhash; size_t outlen; vector<Consume> in; bool mlockfail; };
struct Dev { int peer; u64 seq; string kind; };     // deviations of a cheating peer that took effect

struct Sess;
struct Node {
  Sess *S=nullptr; int id=0; seam_ctx sc{};
  sh_tp *tp=nullptr; sh_peer *peer=nullptr;
  bool started=false, crashed=false, failed=false, finished=false, released=false, cheats=false, startfail=false;
  int ret=0;
  i64 off=0, extra=0, stall_until=0; i64 drift_ppm=0;
  u64 ncalls=0;
  map<int,Bytes> rx;          // unread bytes per link
  map<int,u64> cons;          // frames consumed per link
  A32 sig_pk{}; std::array<u8,64> sig_sk{}; bool has_key=false;
  u8 share[SHARE]={0}; bool has_share=false;
  Bytes approval;             // approval message consumed
  i64 waiting=0;
  // models
  vector<A32> draws;
  vector<A32> chan_keys;      // channel keys this node used when dealing
  map<int,Bytes> dealt;       // receiver index -> dealt plaintext (what was really sent)
  map<int,Bytes> dealt_orig;  // receiver index -> dealt plaintext (what the library produced)
  bool ignore_err=false, force=false;
  u64 err_calls=0;
  bool after_err_ok=false;
  // freshness model
  bool ts_dead=false;
  u64 m_tp_last=0; vector<u64> m_last;
};
struct Sess {
  int s=0,n=0,t=0; u64 eps=0; i64 epoch=0,start_at=0;
  vector<std::unique_ptr<Node>> nodes;           // 0 = coordinator, 1..n
  vector<std::array<u8,64>> lt_sk; Bytes lt_pk;
  vector<Frame> fr[2][130];                       // [dir][link]
  u64 sends=0;
  vector<Call> calls;
  vector<Dev> devs;
  set<int> suspects;                              // peers whose traffic was not honest
  set<int> named; vector<string> reports;
  A32 sid{}; bool has_sid=false;
  u64 whist=0;                                    // hash of this session's observable history
  bool tampered_to_peer=false;
  i64 last_arr[2][130]={{0}};
  Node &tp() { return *nodes[0]; }
  Node &pr(int i) { return *nodes[i]; }
};
struct Ev { i64 t; u64 k; int type; int s, dir, link; Bytes b; };
struct EvCmp { bool operator()(const Ev&a,const Ev&b) const { return a.t!=b.t? a.t>b.t : a.k>b.k; } };

struct World {
  const Plan &P; Result &R;
  vector<std::unique_ptr<Sess>> ss;
  std::priority_queue<Ev,vector<Ev>,EvCmp> q; u64 evk=0;
  i64 now=0,epoch=1700000000;      // simulated time, and when it starts in seconds since 1970
  u8 fill=0xa5; bool dirty=false;
  int only=-1;                     // run just this session
  bool skip_mlock=false;           // twin run without the resource fault
  u64 libseed=0;
  bool quiet=false;                // no violations from per-call oracles (twin runs)
  set<string> want;                // which oracles are active
  World(const Plan &p, Result &r);
  ~World();
  void run();
  bool on(const char *id) { return !quiet && want.count(id); }

  void push(i64 t,int type,int s,int dir,int link,const Bytes&b) { q.push({t,evk++,type,s,dir,link,b}); }
  void start(Sess&S);
  void enter(Node&N); void leave(Node&N);
  void send(Sess&S,int dir,int link,const Bytes&b);
  void pump_tp(Sess&S); void pump_peer(Sess&S,int i);
  void after_tp_call(Sess&S,Call&c,const Bytes&out,bool ok);
  void byz(Sess&S,int link,u64 seq,Bytes&b);
  void evil(Sess&S,int link,u64 seq,Bytes&b);
  bool resign(Sess&S,Node&signer,Bytes&b,size_t off,size_t len,const Bytes&orig);
  void fit(Sess&S,Node&N,Bytes&b,size_t off);
  vector<std::pair<Bytes,i64>> net(Sess&S,int dir,int link,u64 seq,const Bytes&b);
  void collect_named(Sess&S);
  void finish();
};
void dkg_oracles(World &w);
static inline u32 rd32(const u8*p) { return (u32)p[0]<<24|(u32)p[1]<<16|(u32)p[2]<<8|p[3]; }
static inline u64 rd64(const u8*p) { return ((u64)rd32(p)<<32)|rd32(p+4); }
static inline void wr32(u8*p,u32 v) { p[0]=v>>24; p[1]=v>>16; p[2]=v>>8; p[3]=v; }
static inline void wr64(u8*p,u64 v) { wr32(p,(u32)(v>>32)); wr32(p+4,(u32)v); }
enum { O_MSGNO=64, O_LEN=65, O_FROM=69, O_TO=70, O_TS=71, O_SID=79, O_DATA=111 };
size_t inner_size(const Sess&S,int dir,u8 msgno,size_t total,size_t &start);
bool sig_ok(const u8*m,size_t len,const u8*pk);
int share_ref(const Sess&S,const Bytes&commits,int receiver,const Bytes&share); // 0 match, 1 mismatch, 2 undecided
