// C01: parallel operations are free of races and deadlock and give the serial result, for every interleaving
#include "vf.hpp"
#include "conc.hpp"
using namespace conc;
static void examine(const Op& op){
  vf::trace(); int level=vf::thorough(); Digest want, got; bool good=true;
  auto serial=sched::once(1,[&]{ want=op.run(1); });
  if(!serial.ended.empty()){ vf::fail("a serial run succeeds",op.name+" "+serial.ended); return; }
  VF_CHECK(serial.faults.empty(),"a serial run releases its storage once",op.name);
  Digest keep=want;
  for(int pass=2;pass<=(level?5:4)&&good;++pass){ int threads=pass; bool atomics=pass==(level?5:4); if(atomics) threads=2; // in the last pass threads also take turns at atomic operations
    int extra=op.heavy?0:level, bound=threads==2?op.two+extra:threads==3?(op.three<0?(level?0:-1):op.three+(op.heavy||op.long_?0:extra)):op.three-(op.long_?1:0); if(atomics){ if(op.heavy||op.long_) continue; bound=level&&op.three>1?2:1; } if(bound<0) continue;
    sched::Options o; o.threads=threads; o.preemptions=bound; o.atomics=atomics; o.seconds=level?(op.heavy?90:45):40;
    auto st=sched::explore(o,[&]{ got.clear(); got=op.run(threads); },[&](const sched::Report& r){
      std::string id=op.name+vf::fmt(" %d threads schedule ",threads)+r.schedule.substr(0,120)+" ";
      auto say=[&](std::string what, const std::string& more){ good=false; vf::fail(what.c_str(),id+more); };
      if(!r.ended.empty()) say(r.ended.substr(0,8)=="deadlock"?"the threads do not wait for each other for ever":"every schedule runs to its end",r.ended);
      for(auto& f:r.faults) say(f.substr(0,f.find(':')),f);
      if(good&&!alike(keep,got,op.tol)) say("the result is that of a single thread",vf::fmt("%zu and %zu numbers",got.size(),keep.size()));
      return good; });
    vf::state(st.schedules); vf::trans(st.points); vf::ctx().checks+=2*st.schedules; vf::tally("memory accesses checked",st.accesses);
    vf::tally(vf::fmt(st.complete?"operations explored completely with %d threads and %d preemptions%s":"operations whose exploration with %d threads and %d preemptions%s was cut by time",threads,bound,atomics?" at atomic operations":""));
    if(getenv("VF_SHOW")) fprintf(stderr,"%s threads %d bound %d atomics %d: %ld schedules %ld points %ld accesses complete %d\n",op.name.c_str(),threads,bound,int(atomics),st.schedules,st.most_points,st.accesses/std::max(1L,st.schedules),int(st.complete)); }
  if(good){ auto again=sched::once(1,[&]{ got=op.run(1); }); VF_CHECK(again.ended.empty()&&alike(keep,got,0),"the objects are as they were",op.name); }
  vf::outcome(op.name); }
void vf_explore(){ int level=vf::thorough(); auto group=[&](const char* name, std::vector<Op> ops){ for(auto& o:ops) vf::run(std::string(name)+" "+o.name,[&]{ examine(o); }); }; group("zone",zones(level)); group("grid",grids(level)); group("build",builders(level)); }
