// C02: a failure inside a multi-threaded operation always reaches its caller
#include "vf.hpp"
#include "conc.hpp"
#include "thread_exception.h"
#include <sstream>
using namespace conc;
struct Custom { int code; };
struct Named : std::logic_error { using std::logic_error::logic_error; };
enum Kind { fine, alpha, beta, named, number, custom, kinds };
static const char* title[]={"fine","alpha","beta","named","number","custom"};
static void act(int k){ switch(k){ case alpha: throw std::runtime_error("failure alpha"); case beta: throw std::out_of_range("failure beta"); case named: throw Named("failure named"); case number: throw 7; case custom: throw Custom{3}; default: return; } }
static std::string message(int k){ return k==alpha?"failure alpha":k==beta?"failure beta":k==named?"failure named":""; }
static bool kept(int k, std::exception_ptr p){ try{ std::rethrow_exception(p); } catch(const Named& e){ return k==named&&message(k)==e.what(); } catch(const std::out_of_range& e){ return k==beta&&message(k)==e.what(); } catch(const std::runtime_error& e){ return k==alpha&&message(k)==e.what(); } catch(int i){ return k==number&&i==7; } catch(const Custom& c){ return k==custom&&c.code==3; } catch(...){ return false; } }
template<class F> static bool judged(const std::string& id, sched::Options o, const std::function<void()>& body, F judge){ bool good=true; auto st=sched::explore(o,body,[&](const sched::Report& r){ auto say=[&](const char* what, const std::string& more){ good=false; vf::fail(what,id+" schedule "+r.schedule.substr(0,100)+" "+more); }; if(r.ended=="deadlock"){ say("no thread waits for ever",""); return false; } if(r.ended.substr(0,10)=="terminated"){ say("the program is not ended",r.ended); return false; } for(auto& f:r.faults){ say(f.substr(0,f.find(':')).c_str(),f); return false; } return judge(r,say); }); vf::state(st.schedules); vf::trans(st.points); vf::ctx().checks+=3*st.schedules; if(!st.complete) vf::tally("explorations cut short"); return good; }
static void collector(const std::vector<int>& items, int threads, int bound, int sharing){ std::string id; for(int k:items) id+=std::string(title[k])+" "; id+=vf::fmt("%d threads sharing %d",threads,sharing); int failing=0, last=fine; std::vector<std::string> want; bool foreign=false; for(int k:items) if(k){ ++failing; last=k; if(message(k).empty()) foreign=true; else want.push_back(message(k)); }
  std::exception_ptr got; std::vector<int> done(items.size()); int n=int(items.size()); sched::Options o; o.threads=threads; o.preemptions=bound;
  judged(id,o,[&]{ got=nullptr; std::fill(done.begin(),done.end(),0); ThreadException ex;
    if(sharing==0){
#pragma omp parallel for schedule(dynamic)
      for(int i=0;i<n;++i) ex.run([&]{ done[i]=1; act(items[i]); }); }
    else {
#pragma omp parallel for schedule(static)
      for(int i=0;i<n;++i) ex.run([&](int j){ done[j]=1; act(items[j]); },i); }
    try{ ex.rethrow(); } catch(...){ got=std::current_exception(); } },
   [&](const sched::Report& r, auto say){ if(!r.ended.empty()){ say("only a failing item causes an error",r.ended); return false; } for(int d:done) if(!d){ say("the other items are still processed",""); return false; } if(!failing&&got){ say("no error is reported when nothing fails",""); return false; } if(failing&&!got){ say("a failure reaches the caller",""); return false; } if(failing==1&&!kept(last,got)){ say("a single failure is reported as it was",title[last]); return false; }
     if(failing>1){ try{ std::rethrow_exception(got); } catch(const std::exception& e){ std::string m=e.what(); for(auto& w:want) if(m.find(w)==std::string::npos){ say("every failure's message is reported",w+" is missing from "+m); return false; } } catch(...){ say("several failures are reported as one error",""); return false; } } (void)foreign; return true; }); }
static void collectors(){ int level=vf::thorough(); for(int n=1;n<=(level?4:3);++n) for(int sharing=0;sharing<2;++sharing) for(int t=2;t<=(level?4:3);++t) vf::run(vf::fmt("collector %d items sharing %d threads %d",n,sharing,t),[&]{ vf::trace(); vf::tuples(std::vector<int>(n,kinds),[&](const std::vector<int>& items){ if(n==4&&t>2&&items[3]>alpha) return; collector(items,t,t==2?(level?5:4):t==3?(n>3?2:level?3:2):1,sharing); }); vf::outcome(n); }); }
// points outside the domain of a grid
static std::vector<std::string> lines(const std::string& s){ std::vector<std::string> r; std::stringstream in(s); std::string l; while(std::getline(in,l)) r.push_back(l); std::sort(r.begin(),r.end()); return r; }
template<class G> static void outside(const std::string& name, G& g, const Domain& d, int level){ int n=level?4:3; std::vector<V> in, out; for(int i=0;i<n;++i){ double s=0.3+0.15*i; in.push_back(lat::add(lat::mul(d.c,1-s),lat::mul(d.v[size_t(i)%d.v.size()],s))); V far=lat::sub(d.v[size_t(i)%d.v.size()],d.c); double grow=i==1?1.05:i==2?40.:1.6; out.push_back(lat::add(d.c,lat::mul(far,grow))); }
  for(int mask=0;mask<(1<<n);++mask){ std::vector<V> x; for(int i=0;i<n;++i) x.push_back((mask>>i)&1?out[i]:in[i]); auto Q=Domain::array(x); std::string id=name+vf::fmt(" outside %d",mask); Digest want, got; auto op=[&](int t, Digest& to){ to.clear(); auto p=g.interpolate_at(Q,t); Array2<double> a(std::get<0>(p)); put(to,a); Array2<C> b(std::get<1>(p)); put(to,b); }; auto serial=sched::once(1,[&]{ op(1,want); }); VF_CHECK(serial.ended.empty()==(mask==0),"exactly the points outside cause an error",id+" "+serial.ended); if(serial.ended.empty()!=(mask==0)) return;
    for(int t=2;t<=(level?4:3);++t){ sched::Options o; o.threads=t; o.preemptions=t==2?(level?3:2):t==3?(level?2:1):1; o.seconds=level?60:20; judged(id+vf::fmt(" %d threads",t),o,[&]{ op(t,got); },[&](const sched::Report& r, auto say){ if(mask&&r.ended.empty()){ say("a failure reaches the caller",""); return false; } if(!mask&&!r.ended.empty()){ say("no error is reported when nothing fails",r.ended); return false; } if(mask&&lines(r.ended)!=lines(serial.ended)){ say("the error is that of a single thread",r.ended+" not "+serial.ended); return false; } if(!mask&&!alike(want,got,1e-12)){ say("the result is that of a single thread",""); return false; } return true; }); } }
  vf::outcome(name); }
static void grids_outside(){ int level=vf::thorough(); auto bodies=tets::bodies(); for(auto& d:bodies){ if(d.name!="wedge"&&d.name!="octahedron"&&!(level&&d.name=="cube")) continue; std::vector<ind_t> shape; auto fill=[](auto& g, const std::vector<V>& v){ auto a=field<double>(v,{1,1,0,1},RotatesLike::vector,LengthUnit::real_lattice,1); auto b=field<C>(v,{0,1,0,1},RotatesLike::vector,LengthUnit::real_lattice,2); g.replace_data(a,b); };
    vf::run("outside mesh "+d.name,[&]{ vf::trace(); Mesh3<double,C,double,Array2> g(Domain::array(d.v),d.f,d.volume/6,2,-1); fill(g,tets::points(g.get_mesh_xyz())); outside("mesh "+d.name,g,d,level); });
    vf::run("outside nest "+d.name,[&]{ vf::trace(); Nest<double,C,double,Array2> g(d.poly(),d.volume/6,ind_t(5)); fill(g,tets::points(g.vertices())); outside("nest "+d.name,g,d,level); });
    vf::run("outside trellis "+d.name,[&]{ vf::trace(); polytrellis::PolyTrellis<double,C,double,Array2> g(d.poly(),d.volume/3,false); fill(g,tets::points(g.vertices())); outside("trellis "+d.name,g,d,level); }); } }
// storage running out anywhere in a worker
static void starve(const Op& op){ vf::trace(); int level=vf::thorough(); Digest want, got; auto serial=sched::once(1,[&]{ want=op.run(1); }); if(!serial.ended.empty()){ vf::fail("a serial run succeeds",op.name+" "+serial.ended); return; } Digest keep=want;
  for(int threads=2;threads<=(level?3:2);++threads){ auto plain=sched::once(threads,[&]{ got=op.run(threads); }); size_t total=plain.sites.size(); std::vector<long> ks; bool every=total<=size_t(op.heavy?0:level?6000:1200);
    if(every) for(size_t k=1;k<=total;++k) ks.push_back(long(k)); else { std::map<uintptr_t,std::pair<long,long>> ends; for(size_t k=0;k<total;++k){ auto i=ends.find(plain.sites[k]); if(i==ends.end()) ends[plain.sites[k]]={long(k)+1,long(k)+1}; else i->second.second=long(k)+1; } std::set<long> all; for(auto& e:ends){ all.insert(e.second.first); all.insert(e.second.second); } ks.assign(all.begin(),all.end()); }
    for(long t=plain.triangulations;t>0;--t) if(level||t<=40) ks.insert(ks.begin(),-t);
    vf::tally(every?"operations starved at every allocation":"operations starved at the first and last allocation of every caller"); vf::tally("allocations refused",ks.size()-std::min(level?plain.triangulations:40l,plain.triangulations)); vf::tally("triangulations made to fail",std::min(level?plain.triangulations:40l,plain.triangulations)); bool good=true; size_t recovered=0;
    for(long k:ks){ if(!good) break; sched::Options o; o.threads=threads; o.preemptions=op.heavy||op.long_?0:total>300?0:1; o.fail=k; o.seconds=level?20:5; if(op.heavy||op.long_||!every) o.cap=1;
      good=judged(op.name+vf::fmt(" %d threads fault %ld of %zu",threads,k,total),o,[&]{ got.clear(); got=op.run(threads); },[&](const sched::Report& r, auto say){ if(k>0?long(r.sites.size())<k:r.triangulations<-k) { if(!r.ended.empty()){ say("no error is reported when nothing fails",r.ended); return false; } return true; } if(r.ended.empty()){ if(!alike(keep,got,op.tol)){ say("a failure reaches the caller",""); return false; } ++recovered; } else if(k>0&&r.ended.find("bad_alloc")==std::string::npos&&r.ended.find("tetgen")==std::string::npos){ say("the error tells what failed",r.ended); return false; } return true; }); }
    if(getenv("VF_SHOW")) fprintf(stderr,"%s threads %d: %zu allocations, %zu refused, %zu recovered schedules\n",op.name.c_str(),threads,total,ks.size(),recovered);
    if(!good) return; }
  auto again=sched::once(1,[&]{ got=op.run(1); }); VF_CHECK(again.ended.empty()&&alike(keep,got,0),"the objects are as they were after a failure",op.name+" "+again.ended); vf::outcome(op.name); }
void vf_explore(){ int level=vf::thorough(); collectors(); grids_outside(); auto group=[&](const char* name, std::vector<Op> ops){ for(auto& o:ops) vf::run(std::string("starved ")+name+" "+o.name,[&]{ starve(o); }); }; group("zone",zones(level)); group("grid",grids(level)); group("build",builders(level)); }
