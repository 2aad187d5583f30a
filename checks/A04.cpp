// A04: shared array storage is released exactly once, whatever the interleaving
#include "vf.hpp"
#include "sched.hpp"
#include <memory>
#include <optional>
#include "array_.hpp"
#include "array2.hpp"
#include <omp.h>
using namespace brille;
template<class A> struct Make; 
template<> struct Make<Array2<double>>{ static Array2<double> array(){ Array2<double> a(3u,2u); for(ind_t i=0;i<3;++i) for(ind_t j=0;j<2;++j) a.val(i,j)=1+i*2.0+j; return a; } static double first(const Array2<double>& a){ return a.size(0)?a.val(0,0):0; } static double total(const Array2<double>& a){ double t=0; for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j) t+=a.val(i,j); return t; } static void grow(Array2<double>& a){ a.resize(a.size(0)+1); } static const char* name(){ return "two-dimensional"; } };
template<> struct Make<Array<double>>{ typedef std::vector<ind_t> S; static Array<double> array(){ S shape{3,2}; Array<double> a(shape); for(ind_t i=0;i<3;++i) for(ind_t j=0;j<2;++j) { S at{i,j}; a[at]=1+i*2.0+j; } return a; } static double first(const Array<double>& a){ S at{0,0}; return a.size(0)?a[at]:0; } static double total(const Array<double>& a){ double t=0; for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j) { S at{i,j}; t+=a[at]; } return t; } static void grow(Array<double>& a){ a.resize(a.size(0)+1); } static const char* name(){ return "many-dimensional"; } };
//! what one thread does with the handle it was given
enum Op { copy_, row_, read_, drop_, assign_, resize_, decouple_, move_, total_ops };
static const char* label[]={"copy","view","read","drop","assign","resize","decouple","move"};
typedef std::vector<int> Program;
static std::string show(const std::vector<Program>& p){ std::string r; for(auto& x:p){ r+="["; for(int o:x) r+=std::string(label[o])+" "; r+="]"; } return r; }
template<class A> static double perform(std::optional<A> h, const Program& p){ typedef Make<A> M; double seen=0; std::optional<A> other; for(int o:p) switch(o){ case copy_: if(h) other=*h; break; case row_: if(h) other=std::optional<A>(h->view(0)); break; case read_: if(h) seen+=M::total(*h); if(other) seen+=100*M::total(*other); break; case drop_: if(h){ h.reset(); if(other) h.swap(other); } break; case assign_: if(h){ A fresh=M::array(); fresh=*h; *h=fresh; } break; case resize_: if(h) M::grow(*h); break; case decouple_: if(h){ A own=h->decouple(); seen+=1000*M::total(own); } break; case move_: if(h){ A next(std::move(*h)); h.reset(); h.emplace(next); } break; } return seen; }
template<class A> static bool explore(const std::vector<Program>& programs, bool keep, int kind, int bound, const std::string& id){ typedef Make<A> M; int n=int(programs.size()); std::vector<double> want(n), got(n); for(int i=0;i<n;++i){ A a=M::array(); std::optional<A> h; if(kind==1) h.emplace(a.view(0)); else h.emplace(a); want[i]=perform<A>(h,programs[i]); } long worst=0; bool good=true; double after=0, expect=keep?M::total(M::array()):0; sched::Options o; o.threads=n; o.preemptions=bound; o.atomics=true; o.counts=false; o.cap=400000;
  auto st=sched::explore(o,[&]{ std::optional<A> mine(M::array()); typedef std::optional<A> H; H h[3]; for(int i=0;i<n;++i){ got[i]=0; if(kind==1||(kind==2&&i%2)) h[i].emplace(mine->view(0)); else h[i].emplace(*mine); } after=0; if(!keep) mine.reset(); 
#pragma omp parallel num_threads(n)
    { int t=omp_get_thread_num(); H own; own.swap(h[t]); double v=perform<A>(std::move(own),programs[t]); got[t]=v; }
    if(keep) after=M::total(*mine); },
   [&](const sched::Report& r){ auto say=[&](const char* what, const std::string& more){ good=false; vf::fail(what,id+" schedule "+r.schedule+" "+more); }; if(!r.ended.empty()) say("threads sharing an array run to their end",r.ended); for(auto& f:r.faults) say(f.substr(0,f.find(':')).c_str(),f); if(r.ended.empty()&&r.live!=0) say(r.live>0?"storage is never released":"storage is released twice",vf::fmt("%ld blocks",r.live)); if(kind!=2) for(int i=0;i<n&&good;++i) if(got[i]!=want[i]) say("a thread sees the values of the array",vf::fmt("thread %d %g not %g",i,got[i],want[i])); if(good&&after!=expect) say("the array kept by the caller is unchanged",vf::fmt("%g",after)); return good; });
  vf::state(st.schedules); vf::trans(st.points); vf::ctx().checks+=4*st.schedules; vf::tally("memory accesses checked",st.accesses); vf::tally(st.complete?"complete explorations":"incomplete explorations"); if(good) VF_CHECK(st.complete,"every interleaving is explored",id); return good; }
template<class A> static void all(){ int level=vf::thorough(); std::vector<Program> ps{{}}; for(int i=0;i<total_ops;++i) ps.push_back({i}); size_t single=ps.size(); for(int i=0;i<total_ops;++i) for(int j=0;j<total_ops;++j) ps.push_back({i,j}); std::string name=Make<A>::name();
  for(size_t i=0;i<ps.size();++i) vf::run(name+" first "+show({ps[i]}),[&]{ vf::trace(); for(size_t j=0;j<=i;++j) for(int keep=0;keep<2;++keep) for(int kind=0;kind<2;++kind){ if(kind&&((i+j)%3)) continue; std::vector<Program> two{ps[i],ps[j]}; int bound=level?3:2; if(i<single&&j<single) bound=level?6:4; if(!explore<A>(two,keep,kind,bound,name+" "+show(two)+vf::fmt(" keep %d kind %d",keep,kind))) return; } vf::outcome(name); });
  for(size_t i=0;i<single;++i) for(size_t j=0;j<=i;++j) vf::run(name+" three "+show({ps[i],ps[j]}),[&]{ vf::trace(); for(size_t k=0;k<=j;++k) for(int keep=0;keep<2;++keep){ std::vector<Program> three{ps[i],ps[j],ps[k]}; if(!explore<A>(three,keep,keep,level?2:1,name+" "+show(three)+vf::fmt(" keep %d",keep))) return; } vf::outcome(name+" three"); }); }
void vf_explore(){ all<Array2<double>>(); all<Array<double>>(); }
