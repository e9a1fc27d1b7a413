// Shared pieces of the simulator: seeded PRNG, plans, results.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <array>
#include <functional>
#include <algorithm>
#include <sodium.h>
#include "seams.h"
#include "shim.h"

typedef uint8_t u8; typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16;
typedef std::vector<u8> Bytes;
typedef std::array<u8,32> A32;
using std::string; using std::vector; using std::map; using std::set;

static inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline u64 hash2(u64 a, u64 b) { return mix64(a*0x9e3779b97f4a7c15ULL ^ mix64(b)); }
static inline u64 hashs(const string &s) { u64 h=1469598103934665603ULL; for(unsigned char c:s) { h^=c; h*=1099511628211ULL; } return h; }
static inline u64 hashb(const u8 *p, size_t n) {
  u64 h=0x243f6a8885a308d3ULL ^ n; size_t i=0;
  for(;i+8<=n;i+=8) { u64 v; memcpy(&v,p+i,8); h=(h^v)*0x9fb21c651e98df25ULL; h^=h>>28; }
  u64 v=0; if(i<n) { memcpy(&v,p+i,n-i); h=(h^v)*0x9fb21c651e98df25ULL; h^=h>>28; }
  return mix64(h);
}
static inline u64 hashb(const Bytes &b) { return hashb(b.data(),b.size()); }

struct Rng {
  u64 s[4];
  explicit Rng(u64 seed=1) { for(int i=0;i<4;i++) { seed=mix64(seed+i*0x632be59bd9b4e019ULL); s[i]=seed; } }
  static u64 rotl(u64 x,int k) { return (x<<k)|(x>>(64-k)); }
  u64 next() { u64 r=rotl(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0]; s[3]^=s[1]; s[1]^=s[2]; s[0]^=s[3]; s[2]^=t; s[3]=rotl(s[3],45); return r; }
  u64 below(u64 n) { return n?next()%n:0; }
  i64 range(i64 a, i64 b) { return a+(i64)below((u64)(b-a+1)); }
  bool chance(u64 num, u64 den) { return below(den)<num; }
  template<class T> const T& pick(const vector<T>&v) { return v[below(v.size())]; }
  void fill(u8 *p, size_t n) { for(size_t i=0;i<n;i++) p[i]=(u8)(next()>>32); }
  template<class T> void shuffle(vector<T>&v) { for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[below(i)]); }
};

struct Fault {
  string kind; map<string,i64> a;
  i64 get(const char *k, i64 d=0) const { auto i=a.find(k); return i==a.end()?d:i->second; }
};
struct Plan {
  string check; map<string,i64> p; vector<Fault> f; map<i64,vector<i64>> sched;
  i64 get(const char *k, i64 d=0) const { auto i=p.find(k); return i==p.end()?d:i->second; }
  string text() const;
  bool parse(FILE *in);
  void add(const string &kind, std::initializer_list<std::pair<const char*,i64>> l) { Fault x; x.kind=kind; for(auto &e:l) x.a[e.first]=e.second; f.push_back(x); }
};

struct Viol { string tag, detail; };
struct Result {
  u64 hash=0;       // everything observable in this run, in order
  u64 ilv=0;        // order in which participants acted
  u64 sim_ms=0;
  u64 events=0;
  bool nontrivial=false;
  vector<u64> states;
  map<string,u64> fired;   // faults that took effect
  map<string,u64> probe;   // situations reached
  vector<Viol> v;
  string note;
  void h(u64 x) { hash=hash2(hash,x); }
  void act(u64 who) { ilv=hash2(ilv,who); events++; }
  void viol(const string &tag, const string &detail) { if(v.size()<20) v.push_back({tag,detail}); h(hashs(tag)); }
  void hit(const string &k, u64 n=1) { probe[k]+=n; }
  void fire(const string &k) { fired[k]++; }
};

struct CheckDef {
  const char *id;
  Plan (*gen)(Rng &r, const string &id, u64 seed, u64 index, bool thorough);
  void (*exec)(const Plan &p, Result &r);
};
extern CheckDef dkg_checks[], toprf_checks[], noise_checks[], reent_checks[];

string hex(const u8 *p, size_t n);
static inline string hex(const Bytes &b) { return hex(b.data(),b.size()); }
string fmt(const char *f, ...) __attribute__((format(printf,1,2)));

// harness-side scalar arithmetic (independent of the library under test)
namespace ref {
  A32 sc(u64 v);
  A32 add(const A32&,const A32&); A32 sub(const A32&,const A32&); A32 mul(const A32&,const A32&); A32 inv(const A32&);
  A32 lagrange0(const vector<int>&idx, size_t i);             // weight of idx[i] at zero
  A32 interp0(const vector<int>&idx, const vector<A32>&val);  // value at zero
  A32 reduce(const u8 *v);                                    // 256-bit integer mod L
  bool canonical(const u8 *v);
  bool base(A32 &out, const A32 &s);      // s*G, false when neutral
  bool smul(A32 &out, const A32 &s, const u8 *p); // s*P; false when invalid or neutral
  bool padd(A32 &out, const u8 *a, const u8 *b);
  bool on_poly(const vector<int>&idx, const vector<A32>&val, size_t t); // all points on one polynomial of degree < t
  A32 at(const vector<int>&idx, const vector<A32>&val, int x);  // interpolation at x
  A32 rnd(Rng &r);
}
