// M04: every reachable sorting status against a record of five fields
#include "vf.hpp"
#include <string>
#include <tuple>
#include <stdexcept>
#include "sorting_status.hpp"
using namespace brille;
struct M { bool s,l,q,c; unsigned v; bool operator<(const M& o) const { return std::tie(s,l,q,c,v)<std::tie(o.s,o.l,o.q,o.c,o.v); } };
static std::string show(const M& m){ return vf::fmt("{sorted %d locked %d queued %d claimed %d visits %u}",m.s,m.l,m.q,m.c,m.v); }
static const unsigned MAXV=(1u<<28)-1;
static void same(const SortingStatus& x, const M& m, const std::string& how){ vf::ctx().checks++; vf::outcome((uint64_t(m.v)<<4)|(m.s+2*m.l+4*m.q+8*m.c));
  bool ok=x.sorted()==m.s && x.locked()==m.l && x.queued()==m.q && x.claimed()==m.c && x.visits()==m.v && x.visited()==(m.v>0) && x.is_queable()==!(m.s||m.l||m.q||m.c);
  if(!ok) vf::fail("status after "+how.substr(0,how.find('(')), how+" expected "+show(m)+vf::fmt(" found {sorted %d locked %d queued %d claimed %d visits %u} visited %d queable %d",x.sorted(),x.locked(),x.queued(),x.claimed(),x.visits(),x.visited(),x.is_queable())); }
//! apply operation k; returns its name
static const int NOPS=31;
static std::string apply(int k, SortingStatus& x, M& m, bool& good){ good=true; std::string h; auto is=[&](auto a, auto b){ if(!(a==b)) good=false; };
  auto flag=[&](const char* n, auto f, bool& b, bool v){ h=vf::fmt("%s(%d)",n,v); b=v; is(f(v),v); };
  auto set=[&](unsigned v){ h=vf::fmt("visits(%u)",v); m.v=v; is(x.visits(v),v); };
  auto add=[&]{ if(m.v==MAXV){ bool t=vf::throws([&]{ x.addvisit(); }); is(t,true); } else { m.v++; is(x.addvisit(),m.v); } };
  auto addm=[&](unsigned mx){ if(m.v<mx){ m.v++; return m.v; } m.l=true; return m.v; };
  switch(k){ case 0: case 1: flag("sorted",[&](bool v){ return x.sorted(v); },m.s,k&1); break; case 2: case 3: flag("locked",[&](bool v){ return x.locked(v); },m.l,k&1); break; case 4: case 5: flag("queued",[&](bool v){ return x.queued(v); },m.q,k&1); break; case 6: case 7: flag("claimed",[&](bool v){ return x.claimed(v); },m.c,k&1); break;
   case 8: case 9: case 10: case 11: set(k-8); break; case 12: set(MAXV); break; case 13: set(MAXV-1); break; case 14: set(0x5555555); break; case 15: set(0xAAAAAAA); break; case 16: set(15); break; case 17: set(16); break;
   case 18: h="visits(too many)"; is(vf::throws([&]{ x.visits(MAXV+1); }),true); break; case 19: h="visits(far too many)"; is(vf::throws([&]{ x.visits(0xFFFFFFFFu); }),true); break;
   case 20: h="addvisit()"; add(); break;
   case 21: case 22: case 23: case 24: { unsigned mx=k-21; if(k==24) mx=MAXV; h=vf::fmt("addvisit(%u)",mx); unsigned e=addm(mx); is(x.addvisit(mx),e); break; }
   case 25: case 26: case 27: { unsigned mx=k-25; h=vf::fmt("unlocked_addvisit_unsorted(%u)",mx); bool e; if(m.l) e=false; else { addm(mx); e=!m.s; } is(x.unlocked_addvisit_unsorted(mx),e); break; }
   case 28: { h="copy"; SortingStatus y(x); y.sorted(!m.s); y.visits(7); break; } case 29: { h="assign"; SortingStatus y; y=x; x=y; break; }
   case 30: { h="to_string"; std::string t=x.to_string(); is((t.find("sorted")!=std::string::npos),m.s); is((t.find("locked")!=std::string::npos),m.l); is((t.find(std::to_string(m.v)+" visits")!=std::string::npos),true); break; } }
  return h; }
static void from(SortingStatus x, const M& m, int depth, const std::string& hist){ vf::state(); for(int k=0;k<NOPS;++k){ SortingStatus y(x); M n(m); bool good; vf::trans(); std::string h=apply(k,y,n,good); vf::ctx().checks++; if(!good) vf::fail("value returned by "+h.substr(0,h.find('(')), hist+" "+h); same(y,n,h+" after"+hist); vf::trace(); if(depth>1) from(y,n,depth-1,hist+" "+h); } }
void vf_explore(){
  // breadth first: every status reachable with up to 7 visits, and around the largest count, from every flag combination
  vf::run("constructors",[&]{ for(int f=0;f<4;++f) for(unsigned v: {0u,1u,2u,7u,15u,16u,255u,65536u,MAXV-1,MAXV}){ SortingStatus x(f&1,f&2,v); vf::state(); vf::trans(); same(x,M{bool(f&1),bool(f&2),false,false,v},vf::fmt("constructor(%d,%d,%u)",f&1,f>>1,v)); } same(SortingStatus(),M{false,false,false,false,0},"constructor()"); });
  for(int f=0;f<16;++f) for(unsigned v: {0u,1u,2u,3u,14u,15u,16u,0x5555555u,0xAAAAAAAu,MAXV-1,MAXV}) vf::run(vf::fmt("from-%d-%u",f,v),[&]{ SortingStatus x; M m{bool(f&1),bool(f&2),bool(f&4),bool(f&8),v}; x=SortingStatus((v<<4)|unsigned(f)); same(x,m,"constructor(word)"); from(x,m,1,""); });
  for(int a=0;a<NOPS;++a) vf::run(vf::fmt("sequence-%d",a),[&]{ SortingStatus x; M m{false,false,false,false,0}; bool good; std::string h=apply(a,x,m,good); VF_CHECK(good,"value returned by "+h.substr(0,h.find('(')),h); same(x,m,h); from(x,m,vf::thorough()?4:3," "+h); });
}
