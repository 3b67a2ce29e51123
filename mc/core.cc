#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <unordered_set>
#include <exception>
#include <sanitizer/allocator_interface.h>

namespace mc {
bool thorough = false;
bool replaying = false;
static std::vector<Scenario> scenarios;
static std::string g_rule;
static std::vector<std::string> g_assume;
static int g_cpu_limit = 30;
static int g_shard = 0, g_nshards = 1;
static int g_shard_depth = 2;
static uint64_t g_transitions, g_cases, g_nontrivial, g_pruned;
static std::unordered_set<uint64_t> g_states;
static std::unordered_set<uint64_t> g_distinct;
struct SkipCase {}; struct PruneCase {};
static bool g_keep_trace = false;

struct Shared { volatile uint64_t seq; volatile uint64_t ticks_seq; volatile int hang; char cur[8000]; };
static Shared* g_sh;
static volatile uint64_t g_tick_case; static volatile int g_ticks;

void add(const std::string& n, Fn f, int tiers, int sd) { Scenario s; s.name=n; s.fn=f; s.tiers=tiers; s.shard_depth=sd; scenarios.push_back(s); }
void rule(const std::string& t) { g_rule = t; }
void assume(const std::string& t) { g_assume.push_back(t); }
void cpu_limit(int s) { g_cpu_limit = s; }
uint64_t fnv(const void* p, size_t n, uint64_t h) { const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n;++i){h^=c[i];h*=1099511628211ULL;} h^=h>>29; return h; }
std::string esc(const std::string& s) { std::string o; char b[8]; for(size_t i=0;i<s.size();++i){unsigned char c=s[i]; if(c=='\n')o+="\\n"; else if(c=='\t')o+="\\t"; else if(c=='\\')o+="\\\\"; else if(c<32||c>=127){snprintf(b,sizeof b,"\\x%02x",c);o+=b;} else o+=c;} return o; }
std::string num(double d) { char b[64]; snprintf(b,sizeof b,"%.17g",d); return b; }
std::string str(long long v) { char b[32]; snprintf(b,sizeof b,"%lld",v); return b; }
size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes(); }

static std::string path_str(const Run& r) { std::string s; for(size_t i=0;i<r.path_.size();++i){ if(i)s+=','; s+=str(r.path_[i].first);} return s; }

static std::string g_scn;
static void publish(const Run& r) {
  if (!g_sh) return;
  // Only rewritten on choice points: "scenario:prefix" of the running case.
  std::string s = g_scn + ":" + path_str(r);
  size_t n = s.size(); if (n >= sizeof(g_sh->cur)) n = sizeof(g_sh->cur)-1;
  memcpy(g_sh->cur, s.data(), n); g_sh->cur[n]=0;
}

int Run::pick(int n) {
  if (n <= 0) { fprintf(stderr, "mc: pick(%d)\n", n); _exit(3); }
  int v;
  if (pos_ < path_.size()) {
    if (path_[pos_].second == 0) path_[pos_].second = n;  // replay
    if (path_[pos_].second != n || path_[pos_].first >= n) {
      fprintf(stderr, "mc: nondeterministic choice width at %zu: %d vs %d\n", pos_, path_[pos_].second, n); _exit(3);
    }
    v = path_[pos_].first;
  } else { path_.push_back(std::make_pair(0,n)); v = 0; }
  ++pos_;
  publish(*this);
  if (!replaying && (int)pos_ == g_shard_depth && g_nshards > 1) {
    uint64_t h = 88172645463325252ULL;
    for (int i=0;i<g_shard_depth;++i) { int c=path_[i].first; h = fnv(&c,sizeof c,h); }
    if ((int)((h>>7) % g_nshards) != g_shard) throw SkipCase();
  }
  return v;
}
void Run::say(const std::string& s) { if (g_keep_trace || replaying) { trace_ += s; trace_ += "\n"; if (replaying) { printf("  %s\n", esc(s).c_str()); fflush(stdout);} } }
void Run::step(int n) { g_transitions += n; }
void Run::state(const std::string& c) { state_hash(fnv(c.data(), c.size())); }
void Run::state_hash(uint64_t h) { if (g_states.size() < 6000000) g_states.insert(h); }
void Run::fail(const std::string& sig, const std::string& msg) { Failure f; f.sig=sig; f.msg=msg; throw f; }
void Run::prune() { throw PruneCase(); }

static void on_tick(int) {
  if (!g_sh) return;
  if (g_tick_case == g_sh->seq) {
    if (++g_ticks >= g_cpu_limit) { g_sh->hang = 1; _exit(77); }
  } else { g_tick_case = g_sh->seq; g_ticks = 0; }
}

static std::string js(const std::string& s) { std::string o="\""; char b[8]; for(size_t i=0;i<s.size();++i){unsigned char c=s[i]; if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>=127){snprintf(b,sizeof b,"\\u%04x",c);o+=b;} else o+=c;} return o+"\""; }
}  // namespace mc

using namespace mc;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

int main(int argc, char** argv) {
  std::string replay, out, curf, only;
  for (int i=1;i<argc;++i) {
    std::string a=argv[i];
    if (a=="--thorough") thorough=true;
    else if (a=="--quick") thorough=false;
    else if (a=="--shard") { sscanf(argv[++i],"%d/%d",&g_shard,&g_nshards); }
    else if (a=="--out") out=argv[++i];
    else if (a=="--cur") curf=argv[++i];
    else if (a=="--only") only=argv[++i];
    else if (a=="--replay") replay=argv[++i];
  }
  mc_setup();
  if (!curf.empty()) {
    int fd=open(curf.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600);
    if (ftruncate(fd,sizeof(Shared))) {}
    g_sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
    close(fd);
  } else { g_sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=on_tick; sa.sa_flags=SA_RESTART; sigaction(SIGPROF,&sa,0);
  struct itimerval it; it.it_interval.tv_sec=1; it.it_interval.tv_usec=0; it.it_value=it.it_interval; setitimer(ITIMER_PROF,&it,0);

  if (!replay.empty()) {
    replaying=true;
    size_t c=replay.rfind(':'); std::string name=replay.substr(0,c), p=replay.substr(c+1);
    for (size_t s=0;s<scenarios.size();++s) if (scenarios[s].name==name) {
      Run r; r.pos_=0; r.nontrivial_=false; g_scn=name;
      const char* q=p.c_str();
      while (*q) { char* e; long v=strtol(q,&e,10); if(e==q)break; r.path_.push_back(std::make_pair((int)v,0)); q=e; if(*q==',')++q; }
      // A crash report may carry a choice prefix only; the rest defaults to 0.
      g_sh->seq=1;
      printf("REPLAY %s\n", replay.c_str());
      try { scenarios[s].fn(r); }
      catch (Failure& f) { printf("FAIL sig=%s\n  %s\n", f.sig.c_str(), f.msg.c_str()); return 1; }
      catch (PruneCase&) { printf("PRUNED\n"); return 0; }
      catch (std::exception& e) { printf("FAIL sig=exception:%s\n", e.what()); return 1; }
      printf("OK\n"); return 0;
    }
    printf("no such scenario %s\n", name.c_str()); return 2;
  }

  std::vector<std::string> violations; std::map<std::string,int> per_sig;
  std::vector<std::string> samples; std::string per_scn;
  uint64_t seq=0; double t0=now();
  for (size_t s=0;s<scenarios.size();++s) {
    Scenario& sc=scenarios[s];
    if (!(sc.tiers & (thorough?THOROUGH:QUICK))) continue;
    if (!only.empty() && sc.name!=only) continue;
    g_scn=sc.name; g_shard_depth=sc.shard_depth;
    uint64_t c0=g_cases,tr0=g_transitions; double ts=now(); int nsamp=0;
    std::vector<std::pair<int,int> > path; bool more=true;
    while (more) {
      Run r; r.path_=path; r.pos_=0; r.nontrivial_=false;
      g_sh->seq=++seq;
      g_keep_trace = nsamp<2 && (g_cases-c0==0 || g_cases-c0==97);
      bool counted=true; uint64_t tr=g_transitions;
      try { publish(r); sc.fn(r); }
      catch (SkipCase&) { counted=false; g_transitions=tr; }
      catch (PruneCase&) { counted=false; g_transitions=tr; ++g_pruned; }
      catch (Failure& f) {
        if (per_sig[f.sig]++ < 3) violations.push_back("{\"case\":"+js(sc.name+":"+path_str(r))+",\"sig\":"+js(f.sig)+",\"msg\":"+js(f.msg.substr(0,3000))+"}");
      }
      catch (std::exception& e) {
        std::string sig=std::string("exception:")+e.what();
        if (per_sig[sig]++ < 3) violations.push_back("{\"case\":"+js(sc.name+":"+path_str(r))+",\"sig\":"+js(sig)+",\"msg\":\"uncaught exception\"}");
      }
      r.path_.resize(r.pos_);
      if (counted && (int)r.pos_ < g_shard_depth && g_shard != 0) { counted=false; g_transitions=tr; }
      if (counted) {
        ++g_cases; if (r.nontrivial_) { ++g_nontrivial; }
        if (g_keep_trace && !r.trace_.empty()) { ++nsamp; samples.push_back("{\"case\":"+js(sc.name+":"+path_str(r))+",\"trace\":"+js(r.trace_.substr(0,1200))+"}"); }
      }
      path=r.path_;
      while (!path.empty() && path.back().first+1>=path.back().second) path.pop_back();
      if (path.empty()) more=false; else ++path.back().first;
    }
    if (!per_scn.empty()) per_scn+=",";
    char b[64]; snprintf(b,sizeof b,"%.2f",now()-ts);
    per_scn+=js(sc.name)+":{\"cases\":"+str(g_cases-c0)+",\"transitions\":"+str(g_transitions-tr0)+",\"s\":"+b+"}";
  }
  g_sh->seq=++seq;
  memcpy(g_sh->cur,"DONE",5);
  std::string o="{\"cases\":"+str(g_cases)+",\"transitions\":"+str(g_transitions)+",\"nontrivial\":"+str(g_nontrivial)+",\"states\":"+str(g_states.size())+",\"pruned\":"+str(g_pruned);
  o+=",\"rule\":"+js(g_rule)+",\"assume\":[";
  for(size_t i=0;i<g_assume.size();++i){ if(i)o+=","; o+=js(g_assume[i]); }
  o+="],\"scenarios\":{"+per_scn+"},\"samples\":[";
  for(size_t i=0;i<samples.size()&&i<40;++i){ if(i)o+=","; o+=samples[i]; }
  o+="],\"violations\":["; for(size_t i=0;i<violations.size();++i){ if(i)o+=","; o+=violations[i]; }
  o+="]}\n";
  if (out.empty()) printf("%s",o.c_str());
  else {
    FILE* f=fopen((out+".states").c_str(),"wb"); for(std::unordered_set<uint64_t>::iterator i=g_states.begin();i!=g_states.end();++i){uint64_t v=*i; fwrite(&v,8,1,f);} fclose(f);
    f=fopen(out.c_str(),"w"); fwrite(o.data(),1,o.size(),f); fclose(f);
  }
  fflush(stdout);
  (void)t0;
  _exit(0);
}
