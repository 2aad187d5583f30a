// Common part of every check: case enumeration, sharding, counting, reporting.
// A check enumerates its bounded space as a sequence of named cases; each case
// runs the real brille code and compares with an oracle on every step.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <cmath>
#include <chrono>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace vf {

struct Stop {};

struct Ctx {
  std::string property, tier{"quick"}, only;
  int shard{0}, nshards{1};
  bool have_only{false};
  uint64_t n_case{0}, n_run{0}, states{0}, transitions{0}, traces{0}, checks{0};
  std::unordered_set<uint64_t> outcomes;
  std::map<std::string,uint64_t> tallies;
  std::vector<std::string> samples;
  std::string cur{"-"};
  uint64_t n_fail{0};
  std::set<std::string> fail_keys;
  bool capped{false}, ran_only{false};
  double deadline{0};
  char* shm{nullptr};
  std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};
  bool thorough() const { return tier == "thorough"; }
};
inline Ctx& ctx(){ static Ctx c; return c; }
inline bool thorough(){ return ctx().thorough(); }
inline double elapsed(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-ctx().t0).count(); }

inline uint64_t fnv(const void* p, size_t n, uint64_t h=1469598103934665603ull){
  const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n;++i){h^=c[i];h*=1099511628211ull;} return h; }
inline uint64_t hash(const std::string& s){ return fnv(s.data(), s.size()); }

//! number of distinct inputs / states visited
inline void state(uint64_t n=1){ ctx().states += n; }
//! number of operations of the real code executed
inline void trans(uint64_t n=1){ ctx().transitions += n; }
//! number of executions compared, step by step, with the oracle
inline void trace(uint64_t n=1){ ctx().traces += n; }
inline void outcome(uint64_t h){ if (ctx().outcomes.size() < 200000) ctx().outcomes.insert(h); }
inline void outcome(const std::string& s){ outcome(hash(s)); }
inline void tally(const std::string& k, uint64_t n=1){ ctx().tallies[k]+=n; }
inline void sample(const std::string& s){ if (ctx().samples.size()<6) ctx().samples.push_back(s); }

inline std::string clean(std::string s, size_t lim=1500){
  for (auto& c: s) if (c=='\n'||c=='\t'||c=='\r') c=' ';
  if (s.size()>lim) s = s.substr(0,lim)+"...";
  return s;
}

/*! Start a case. Returns whether this process should run it. */
inline bool begin(const std::string& id){
  Ctx& c = ctx();
  uint64_t k = c.n_case++;
  if (c.have_only){ if (id != c.only) return false; }
  else if (static_cast<int>(k % c.nshards) != c.shard) return false;
  if (c.deadline > 0 && elapsed() > c.deadline){ c.capped = true; return false; }
  c.cur = id; c.n_run++; if (c.have_only) c.ran_only=true;
  if (c.shm){ std::string t = clean(id, 3000); memcpy(c.shm+8, t.c_str(), t.size()+1); (*reinterpret_cast<volatile uint64_t*>(c.shm))++; }
  return true;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f, ...){
  char buf[4096]; va_list ap; va_start(ap,f); vsnprintf(buf,sizeof buf,f,ap); va_end(ap); return buf; }

//! Report that the property failed in the current case; key names what failed
inline void fail(const std::string& what, const std::string& msg){
  Ctx& c = ctx();
  c.n_fail++;
  std::string key = c.cur + "|" + what;
  if (!c.fail_keys.insert(key).second) return;
  if (c.fail_keys.size() > 3000) return;
  printf("FAIL\t%s\t%s\t%s\n", clean(c.cur,3000).c_str(), clean(what,500).c_str(), clean(msg).c_str());
  fflush(stdout);
}
#define VF_CHECK(cond, what, msg) do{ vf::ctx().checks++; if(!(cond)) vf::fail((what), (msg)); }while(0)

template<class V> std::string str(const V& v){ std::ostringstream o; o.precision(17); o<<v; return o.str(); }
template<class It> std::string join(It a, It b, const char* sep=","){ std::ostringstream o; o.precision(17); bool f=true; for(;a!=b;++a){ if(!f)o<<sep; f=false; o<<*a;} return o.str(); }
template<class C> std::string vec(const C& v){ return "["+join(v.begin(), v.end())+"]"; }

/*! Run a case body; any exception that escapes is a failure of the case. */
template<class F> void run(const std::string& id, F body){
  if (!begin(id)) return;
  try { body(); }
  catch (const Stop&) {}
  catch (const std::exception& e) { fail("unexpected-exception", e.what()); }
  catch (...) { fail("unexpected-exception", "(not a std::exception)"); }
}

//! does f() throw a standard exception?
template<class F> bool throws(F f){ try { f(); } catch(const std::exception&){ return true; } return false; }

/*! Run body in a child process; returns true when it returned normally with code 0.
    The child's text output is returned in out. */
template<class F> int isolate(F body, std::string* out=nullptr, int timeout_s=60){
  int fd[2]; if (pipe(fd)) return -1;
  fflush(stdout);
  pid_t p = fork();
  if (p==0){
    close(fd[0]); dup2(fd[1],2); dup2(fd[1],1); alarm(timeout_s);
#ifndef __SANITIZE_ADDRESS__
    struct rlimit rl{4ul<<30,4ul<<30}; setrlimit(RLIMIT_AS,&rl);
#endif
    int r=0; try { r = body(); } catch (const std::exception& e){ fprintf(stderr,"exception: %s",e.what()); r=99; }
    fflush(stdout); fflush(stderr); _exit(r);
  }
  close(fd[1]); std::string t; char b[4096]; ssize_t n;
  while ((n=read(fd[0],b,sizeof b))>0) if (t.size()<100000) t.append(b,n);
  close(fd[0]); int st=0; waitpid(p,&st,0);
  if (out) *out=t;
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1000+WTERMSIG(st);
}

inline void finish(){
  Ctx& c = ctx();
  std::ostringstream o;
  auto q=[](const std::string& s){ std::string r="\""; for(char ch: clean(s,800)){ if(ch=='"'||ch=='\\') r+='\\'; if((unsigned char)ch<32) ch=' '; r+=ch;} return r+"\""; };
  o << "{\"cases\":"<<c.n_run<<",\"cases_total\":"<<c.n_case<<",\"states\":"<<c.states<<",\"transitions\":"<<c.transitions
    <<",\"traces\":"<<c.traces<<",\"assertions\":"<<c.checks<<",\"fails\":"<<c.n_fail<<",\"capped\":"<<(c.capped?"true":"false")
    <<",\"wall\":"<<elapsed()<<",\"ran_only\":"<<(c.ran_only?"true":"false");
  o << ",\"outcomes\":["; bool f=true; size_t k=0; for (auto h: c.outcomes){ if(++k>20000) break; if(!f)o<<","; f=false; o<<"\""<<std::hex<<h<<std::dec<<"\""; } o<<"]";
  o << ",\"tallies\":{"; f=true; for (auto& t: c.tallies){ if(!f)o<<","; f=false; o<<q(t.first)<<":"<<t.second; } o<<"}";
  o << ",\"samples\":["; f=true; for (auto& t: c.samples){ if(!f)o<<","; f=false; o<<q(t); } o<<"]}";
  printf("COUNTS\t%s\n", o.str().c_str()); fflush(stdout);
}

inline void parse(int argc, char** argv){
  Ctx& c = ctx();
  for (int i=1;i<argc;++i){
    std::string a=argv[i];
    auto nx=[&]{ return std::string(argv[++i]); };
    if (a=="--property") c.property=nx();
    else if (a=="--tier") c.tier=nx();
    else if (a=="--shard") { std::string s=nx(); sscanf(s.c_str(),"%d/%d",&c.shard,&c.nshards); }
    else if (a=="--only") { c.only=nx(); c.have_only=true; }
    else if (a=="--deadline") c.deadline=atof(nx().c_str());
    else if (a=="--status") { std::string f=nx(); int fd=open(f.c_str(),O_RDWR|O_CREAT,0644); if(fd>=0){ if(ftruncate(fd,8192)) {} c.shm=(char*)mmap(nullptr,8192,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(c.shm==MAP_FAILED) c.shm=nullptr; close(fd);} }
  }
}

//! call f(idx) for every tuple idx with 0 <= idx[i] < n[i]
template<class F> void tuples(const std::vector<int>& n, F f){
  std::vector<int> i(n.size(),0);
  for (int x: n) if (x<=0) return;
  while (true){
    f(static_cast<const std::vector<int>&>(i));
    int d = static_cast<int>(n.size())-1;
    while (d>=0 && ++i[d]>=n[d]) i[d--]=0;
    if (d<0) return;
  }
}
template<class F> void power(int base, int len, F f){ tuples(std::vector<int>(len, base), f); }

} // namespace vf

//! the body of the check
void vf_explore();
#ifndef VF_PART
int main(int argc, char** argv){
  vf::parse(argc, argv);
  try { vf_explore(); } catch (const std::exception& e){ vf::ctx().cur="-"; vf::fail("enumeration-aborted", e.what()); }
  vf::finish();
  return 0;
}
#endif
