// Driver process: seeded batches (every run in its own process image), plan
// printing, and exact execution of one plan.
#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <time.h>

static vector<CheckDef*> all() {
  vector<CheckDef*> v;
  for(CheckDef *t: {dkg_checks,toprf_checks,noise_checks,reent_checks}) for(;t->id;t++) v.push_back(t);
  return v;
}
static CheckDef *find(const string &id) { for(auto *c:all()) if(id==c->id) return c; return NULL; }

static u64 run_seed(u64 seed, const string &check, u64 i) { return hash2(hash2(seed,hashs(check)),i); }

static Plan make(CheckDef *c, u64 seed, u64 i, bool thorough) {
  u64 s=run_seed(seed,c->id,i);
  Rng r(s);
  Plan p=c->gen(r,c->id,s,i,thorough);
  p.check=c->id;
  return p;
}

static string serialize(const Result &r) {
  string o=fmt("hash %016llx\nilv %016llx\nsim_ms %llu\nevents %llu\nnontrivial %d\n",(unsigned long long)r.hash,(unsigned long long)r.ilv,
               (unsigned long long)r.sim_ms,(unsigned long long)r.events,r.nontrivial?1:0);
  for(auto &e:r.fired) o+=fmt("fired %s %llu\n",e.first.c_str(),(unsigned long long)e.second);
  for(auto &e:r.probe) o+=fmt("probe %s %llu\n",e.first.c_str(),(unsigned long long)e.second);
  for(auto &v:r.v) { string d=v.detail; for(char &c:d) if(c=='\n') c=' '; o+="viol "+v.tag+" "+d+"\n"; }
  for(u64 s:r.states) o+=fmt("state %016llx\n",(unsigned long long)s);
  return o;
}

static void run_plan(const Plan &p, Result &r) {
  CheckDef *c=find(p.check);
  if(!c) { fprintf(stderr,"unknown check %s\n",p.check.c_str()); _exit(3); }
  c->exec(p,r);
}

// run one plan in a child; returns its serialized result, or a crash record
static const size_t BUFSZ=4u<<20;
static string run_child(const Plan &p, char *shm, const string &errfile, unsigned limit_s) {
  *(u64*)shm=0;
  pid_t pid=fork();
  if(pid<0) { perror("fork"); exit(3); }
  if(pid==0) {
    int fd=open(errfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600);
    dup2(fd,2); dup2(fd,1); if(fd>2) close(fd);
    alarm(p.get("n",0)>40?limit_s*5:limit_s);   // large groups take their time
    Result r; run_plan(p,r);
    string o=serialize(r);
    if(o.size()+16>BUFSZ) o.resize(BUFSZ-16);
    memcpy(shm+8,o.data(),o.size()); shm[8+o.size()]=0;
    *(u64*)shm=o.size();
    _exit(0);
  }
  int st=0; while(waitpid(pid,&st,0)<0) {}
  if(WIFEXITED(st) && WEXITSTATUS(st)==0 && *(u64*)shm>0) return string(shm+8,*(u64*)shm);
  string tag;
  if(WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM) tag="hang";
  else {
    string txt; FILE *f=fopen(errfile.c_str(),"r"); if(f) { char b[4096]; size_t n; while((n=fread(b,1,sizeof b,f))>0 && txt.size()<(1u<<20)) txt.append(b,n); fclose(f); }
    size_t s=txt.find("ERROR: AddressSanitizer: ");
    if(s!=string::npos) { s+=25; size_t e=txt.find_first_of(" \n:",s); tag="crash:asan:"+txt.substr(s,e-s);
      size_t w=txt.find("SUMMARY: "); if(w!=string::npos) { size_t in=txt.rfind(" in ",txt.find('\n',w)); if(in!=string::npos && in>w) { size_t e2=txt.find_first_of(" \n",in+4); tag+=":"+txt.substr(in+4,e2-in-4); } } }
    else if((s=txt.find("runtime error: "))!=string::npos) { size_t e=txt.find_first_of(" \n",s+15); size_t e3=txt.find_first_of(" \n",e+1); tag="crash:ubsan:"+txt.substr(s+15,e3-s-15); for(char &c:tag) if(c==' ') c='-'; }
    else if(WIFSIGNALED(st)) tag=fmt("crash:signal%d",WTERMSIG(st));
    else { tag=fmt("crash:exit%d",WEXITSTATUS(st)); }
    if(tag=="crash:exit3") { fprintf(stderr,"harness error: %s\n",txt.c_str()); exit(3); }
  }
  return fmt("hash %016llx\nilv 0\nsim_ms 0\nevents 0\nnontrivial 1\nviol %s process ended abnormally\n",(unsigned long long)hashs(tag),tag.c_str());
}

struct Agg {
  u64 runs=0,nontrivial=0,sim_ms=0,events=0; map<string,u64> fired,probe;
  void add(const string &o, FILE *hf, u64 index, FILE *vf) {
    runs++; u64 ilv=0; int nt=0;
    size_t p=0;
    while(p<o.size()) {
      size_t e=o.find('\n',p); if(e==string::npos) e=o.size();
      string l=o.substr(p,e-p); p=e+1;
      char k[64]; unsigned long long v; 
      if(sscanf(l.c_str(),"ilv %llx",&v)==1) ilv=v;
      else if(sscanf(l.c_str(),"sim_ms %llu",&v)==1) sim_ms+=v;
      else if(sscanf(l.c_str(),"events %llu",&v)==1) events+=v;
      else if(sscanf(l.c_str(),"nontrivial %llu",&v)==1) { nt=(int)v; nontrivial+=v; }
      else if(sscanf(l.c_str(),"fired %63s %llu",k,&v)==2) fired[k]+=v;
      else if(sscanf(l.c_str(),"probe %63s %llu",k,&v)==2) probe[k]+=v;
      else if(l.compare(0,5,"viol ")==0) { fprintf(vf,"%llu %s\n",(unsigned long long)index,l.c_str()+5); fflush(vf); }
      else if(sscanf(l.c_str(),"hash %llx",&v)==1) { u64 rec[2]={1,v}; fwrite(rec,8,2,hf); u64 r2[2]={4,index}; fwrite(r2,8,2,hf); }
      else if(sscanf(l.c_str(),"state %llx",&v)==1) { u64 rec[2]={3,v}; fwrite(rec,8,2,hf); }
    }
    u64 rec[2]={nt?2u:5u,ilv}; fwrite(rec,8,2,hf);
  }
};

struct Shared { std::atomic<u64> next; std::atomic<u64> viols; };

int main(int argc, char **argv) {
  setvbuf(stdout,NULL,_IOLBF,0);
  seam_init();
  string cmd=argc>1?argv[1]:"";
  if(cmd=="list") { for(auto *c:all()) printf("%s\n",c->id); return 0; }
  if(cmd=="plan" && argc==6) {
    CheckDef *c=find(argv[2]); if(!c) return 3;
    fputs(make(c,strtoull(argv[3],0,0),strtoull(argv[4],0,0),string(argv[5])=="thorough").text().c_str(),stdout);
    return 0;
  }
  if(cmd=="exec" && argc==3) { // in this very process: what a replay runs
    FILE *f=fopen(argv[2],"r"); Plan p; if(!f||!p.parse(f)) { fprintf(stderr,"bad plan\n"); return 3; } fclose(f);
    Result r; run_plan(p,r); fputs(serialize(r).c_str(),stdout); return 0;
  }
  if(cmd=="run" && argc==5) { // many plan files, each in a child: sim run <limit> <errfile> <listfile>
    char *shm=(char*)mmap(NULL,BUFSZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    FILE *l=fopen(argv[4],"r"); char path[4096];
    while(l && fscanf(l,"%4095s",path)==1) {
      FILE *f=fopen(path,"r"); Plan p; if(!f||!p.parse(f)) { fprintf(stderr,"bad plan\n"); return 3; } fclose(f);
      string o=run_child(p,shm,argv[3],(unsigned)atoi(argv[2]));
      printf("plan %s\n",path); fputs(o.c_str(),stdout); printf("end\n");
    }
    return 0;
  }
  if(cmd=="batch" && argc==10) {
    CheckDef *c=find(argv[2]); if(!c) return 3;
    u64 seed=strtoull(argv[3],0,0), first=strtoull(argv[4],0,0), count=strtoull(argv[5],0,0); int workers=atoi(argv[6]); double secs=atof(argv[7]);
    bool thorough=string(argv[8])=="thorough"; string dir=argv[9];
    Shared *sh=(Shared*)mmap(NULL,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    sh->next=first;
    struct timespec t0; 
    extern int __real_clock_gettime(clockid_t, struct timespec*) __asm__("__real_clock_gettime");
    __real_clock_gettime(CLOCK_MONOTONIC,&t0);
    vector<pid_t> pids;
    for(int w=0;w<workers;w++) {
      pid_t pid=fork(); if(pid<0) { perror("fork"); return 3; }
      if(pid==0) {
        char *shm=(char*)mmap(NULL,BUFSZ,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
        string pre=dir+fmt("/w%d",w);
        FILE *hf=fopen((pre+".hashes").c_str(),"w"), *vf=fopen((pre+".viol").c_str(),"w");
        if(!hf||!vf) _exit(3);
        Agg a;
        for(;;) {
          struct timespec t1; __real_clock_gettime(CLOCK_MONOTONIC,&t1);
          if((t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)/1e9>secs) break;
          if(sh->viols.load()>=40) break;
          u64 i=sh->next++; if(i>=first+count) break;
          Plan p=make(c,seed,i,thorough);
          string o=run_child(p,shm,pre+".err",60);
          if(o.find("\nviol ")!=string::npos) sh->viols++;
          a.add(o,hf,i,vf);
        }
        fclose(hf); fclose(vf);
        FILE *s=fopen((pre+".stat").c_str(),"w");
        fprintf(s,"runs %llu\nnontrivial %llu\nsim_ms %llu\nevents %llu\n",(unsigned long long)a.runs,(unsigned long long)a.nontrivial,(unsigned long long)a.sim_ms,(unsigned long long)a.events);
        for(auto &e:a.fired) fprintf(s,"fired %s %llu\n",e.first.c_str(),(unsigned long long)e.second);
        for(auto &e:a.probe) fprintf(s,"probe %s %llu\n",e.first.c_str(),(unsigned long long)e.second);
        fclose(s);
        unlink((pre+".err").c_str());
        _exit(0);
      }
      pids.push_back(pid);
    }
    int bad=0; for(pid_t p:pids) { int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) bad=1; }
    return bad?3:0;
  }
  fprintf(stderr,"usage: sim list | plan CHECK SEED INDEX TIER | exec PLAN | run LIMIT ERR LIST | batch CHECK SEED FIRST COUNT WORKERS SECS TIER DIR\n");
  return 3;
}
