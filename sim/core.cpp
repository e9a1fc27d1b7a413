#include "core.h"
#include <cstdarg>

string fmt(const char *f, ...) {
  char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b;
}
string hex(const u8 *p, size_t n) { string s; char b[3]; for(size_t i=0;i<n;i++) { snprintf(b,3,"%02x",p[i]); s+=b; } return s; }

string Plan::text() const {
  string o="check "+check+"\n";
  for(auto &e:p) o+=fmt("param %s %lld\n",e.first.c_str(),(long long)e.second);
  for(auto &x:f) { o+="fault "+x.kind; for(auto &e:x.a) o+=fmt(" %s=%lld",e.first.c_str(),(long long)e.second); o+="\n"; }
  for(auto &e:sched) { if(e.second.empty()) continue; o+=fmt("sched %lld",(long long)e.first); for(i64 v:e.second) o+=fmt(" %lld",(long long)v); o+="\n"; }
  return o;
}
bool Plan::parse(FILE *in) {
  char *line=NULL; size_t cap=0; 
  while(getline(&line,&cap,in)>0) {
    vector<string> w; for(char *t=strtok(line," \n");t;t=strtok(NULL," \n")) w.push_back(t);
    if(w.empty()||w[0][0]=='#') continue;
    if(w[0]=="check" && w.size()==2) check=w[1];
    else if(w[0]=="param" && w.size()==3) p[w[1]]=atoll(w[2].c_str());
    else if(w[0]=="fault" && w.size()>=2) {
      Fault x; x.kind=w[1];
      for(size_t i=2;i<w.size();i++) { size_t e=w[i].find('='); if(e==string::npos) { free(line); return false; } x.a[w[i].substr(0,e)]=atoll(w[i].c_str()+e+1); }
      f.push_back(x);
    } else if(w[0]=="sched" && w.size()>=2) { auto &v=sched[atoll(w[1].c_str())]; for(size_t i=2;i<w.size();i++) v.push_back(atoll(w[i].c_str())); }
    else { free(line); return false; }
  }
  free(line);
  return !check.empty();
}

namespace ref {
A32 sc(u64 v) { A32 r{}; for(int i=0;i<8;i++) r[i]=(u8)(v>>(8*i)); return r; }
A32 add(const A32&a,const A32&b) { A32 r; crypto_core_ristretto255_scalar_add(r.data(),a.data(),b.data()); return r; }
A32 sub(const A32&a,const A32&b) { A32 r; crypto_core_ristretto255_scalar_sub(r.data(),a.data(),b.data()); return r; }
A32 mul(const A32&a,const A32&b) { A32 r; crypto_core_ristretto255_scalar_mul(r.data(),a.data(),b.data()); return r; }
A32 inv(const A32&a) { A32 r; crypto_core_ristretto255_scalar_invert(r.data(),a.data()); return r; }
A32 at(const vector<int>&idx, const vector<A32>&val, int x) {
  A32 s=sc(0);
  for(size_t i=0;i<idx.size();i++) {
    A32 num=sc(1),den=sc(1);
    for(size_t j=0;j<idx.size();j++) if(j!=i) {
      num=mul(num,sub(sc(x),sc(idx[j])));
      den=mul(den,sub(sc(idx[i]),sc(idx[j])));
    }
    s=add(s,mul(val[i],mul(num,inv(den))));
  }
  return s;
}
A32 lagrange0(const vector<int>&idx, size_t i) {
  vector<A32> v(idx.size(),sc(0)); v[i]=sc(1); return at(idx,v,0);
}
A32 interp0(const vector<int>&idx, const vector<A32>&val) { return at(idx,val,0); }
A32 reduce(const u8 *v) { u8 b[64]={0}; memcpy(b,v,32); A32 r; crypto_core_ristretto255_scalar_reduce(r.data(),b); return r; }
bool canonical(const u8 *v) { A32 r=reduce(v); return memcmp(r.data(),v,32)==0; }
bool base(A32 &out, const A32 &s) { return crypto_scalarmult_ristretto255_base(out.data(),s.data())==0; }
bool smul(A32 &out, const A32 &s, const u8 *p) { return crypto_scalarmult_ristretto255(out.data(),s.data(),p)==0; }
bool padd(A32 &out, const u8 *a, const u8 *b) { return crypto_core_ristretto255_add(out.data(),a,b)==0; }
bool on_poly(const vector<int>&idx, const vector<A32>&val, size_t t) {
  if(idx.size()<=t) return true;
  vector<int> bi(idx.begin(),idx.begin()+t); vector<A32> bv(val.begin(),val.begin()+t);
  for(size_t k=t;k<idx.size();k++) if(at(bi,bv,idx[k])!=val[k]) return false;
  return true;
}
A32 rnd(Rng &r) { u8 b[64]; r.fill(b,64); A32 o; crypto_core_ristretto255_scalar_reduce(o.data(),b); return o; }
}
