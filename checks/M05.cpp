// M05: merging the vertex tables of separate workers loses, duplicates and misnumbers nothing
#include "vf.hpp"
#include <memory>
#include "lattice_dual.hpp"
#include "array_.hpp"
#include "array_l_.hpp"
#include "transform.hpp"
#include "array_functions.hpp"
#include "vertex_map_set.h"
#include "vertex_index_map.h"
#include "vertex_map_knit.h"
#include <omp.h>
using namespace brille;
typedef std::array<double,3> P; typedef VertexMapSet<double,Array2> Set; typedef std::pair<Set,VertexIndexMap> Table;
static const double tol=1e-10; static const int digit=1000;
static Array2<double> rows(const std::vector<P>& v){ Array2<double> a(ind_t(v.size()),3u); for(ind_t i=0;i<v.size();++i) for(int k=0;k<3;++k) a.val(i,k)=v[i][k]; return a; }
static std::vector<P> points(const Array2<double>& a){ std::vector<P> r; for(ind_t i=0;i<a.size(0);++i) r.push_back({a.val(i,0),a.val(i,1),a.val(i,2)}); return r; }
static bool near(const P& a, const P& b){ for(int k=0;k<3;++k) if(!(std::abs(a[k]-b[k])<1e-8)) return false; return true; }
//! a corner of a cell as a worker may record it
struct Corner { enum Kind { known, unknown, crafted, origin } kind; ind_t knot; P at; std::string name; };
struct World { std::string name; std::vector<P> knots; std::vector<Corner> corners; };
static World world(int n, int m, int which){ World w; w.name=vf::fmt("%d knots %d others kind %d",n,m,which); for(int i=0;i<n;++i) w.knots.push_back({which?0.5*i:1.5+i,which?-0.25*i:0.5*i,which?double(i):-1.0*i*i}); for(int i=0;i<n;++i) w.corners.push_back({i%2==which%2?Corner::known:Corner::unknown,ind_t(i),w.knots[i],vf::fmt("k%d",i)}); if(which==2&&n) w.corners.push_back({Corner::known,ind_t(n-1),w.knots[n-1],vf::fmt("k%d again",n-1)}); for(int i=0;i<m;++i){ P x{0.3+0.11*i,0.7*(i+1),-0.2-i*0.4}; w.corners.push_back({i%2?Corner::unknown:Corner::crafted,0,x,vf::fmt("x%d",i)}); if(which&&i==m-1){ P y=x; for(auto& z:y) z*=1+1e-14; w.corners.push_back({i%2?Corner::crafted:Corner::unknown,0,y,vf::fmt("x%d nearly",i)}); } } w.corners.push_back({Corner::origin,0,{0,0,0},"origin"}); return w; }
typedef std::vector<int> Cell;
static std::string show(const World& w, const std::vector<Cell>& cells){ std::string r; for(auto& c:cells){ r+="("; for(auto i:c) r+=w.corners[i].name+","; r+=")"; } return r; }
//! record the cells given to one worker, in the order given
static Table work(const World& w, const Array2<double>& knots, const std::vector<Cell>& cells, const std::vector<int>& mine){ Table t(Set(knots,tol,digit),VertexIndexMap()); for(int c:mine){ auto& at=t.second.get(ind_t(c)); at.resize(cells[c].size()); bool tail=false; for(size_t j=0;j<cells[c].size();++j){ auto& k=w.corners[cells[c][j]]; switch(k.kind){ case Corner::known: at[j]=t.first.preserve(k.knot); break; case Corner::unknown: at[j]=t.first.add(rows({k.at})); break; case Corner::crafted: at[j]=t.first.add(rows({k.at}),AddVertexType::Crafted); break; default: at[j]=t.first.origin_index(); } (void)tail; } } return t; }
//! what the user of a merged table sees
static bool judge(const World& w, const std::vector<Cell>& cells, const Table& t, const std::vector<P>& extra, const std::string& id){ std::vector<P> want; auto need=[&](const P& p){ for(auto& q:want) if(near(p,q)) return; want.push_back(p); }; for(auto& c:cells) for(int i:c) need(w.corners[i].at); for(auto& p:extra) need(p); auto got=points(t.first.consolidate().pristine()); bool ok=true; auto say=[&](const char* what, const std::string& more){ ok=false; vf::fail(what,id+" "+more); };
  if(got.size()!=want.size()) say("every vertex is in the merged list once",vf::fmt("%zu of %zu",got.size(),want.size())); for(auto& p:want){ int n=0; for(auto& q:got) n+=near(p,q); if(n!=1){ say("every vertex is in the merged list once",vf::fmt("%d times",n)); break; } } ind_t kept=t.first.preserved_count(); VF_CHECK(t.second.size()==cells.size(),"every cell is in the merged map",id); for(size_t c=0;c<cells.size()&&ok;++c){ if(!t.second.has(ind_t(c))){ say("every cell is in the merged map",""); break; } auto idx=t.second.decode(kept,ind_t(c)); if(idx.size()!=cells[c].size()){ say("every corner is in the merged map",""); break; } for(size_t j=0;j<idx.size();++j){ if(idx[j]!=t.second.decode(kept,ind_t(c),ind_t(j))) say("both ways to look up a corner agree",""); if(idx[j]>=got.size()||!near(got[idx[j]],w.corners[cells[c][j]].at)){ say("every corner selects the vertex recorded for it",vf::fmt("cell %zu corner %zu",c,j)); break; } } } vf::ctx().checks+=3; return ok; }
//! every way to merge tables two at a time
static void trees(const World& w, const std::vector<Cell>& cells, const std::vector<Table>& in, int depth, const std::string& id, bool& ok){ if(in.size()==1){ Table t=in[0]; ok&=judge(w,cells,t,{},id+" merged"); auto u=vertex_maps::steps::consolidate_pair(t); ok&=judge(w,cells,u,{},id+" merged and consolidated"); vf::trans(); return; } for(size_t i=0;i<in.size()&&ok;++i) for(size_t j=0;j<in.size()&&ok;++j) if(i!=j){ std::vector<Table> next; for(size_t k=0;k<in.size();++k) if(k!=i&&k!=j) next.push_back(in[k]); next.push_back(vertex_maps::combine(in[i],in[j])); vf::trans(); trees(w,cells,next,depth+1,id+vf::fmt(" %zu+%zu",i,j),ok); } }
static bool all(const World& w, const Array2<double>& knots, const std::vector<Cell>& cells, int tables, bool reverse, bool every, const std::string& tag){ size_t n=cells.size(), total=1; for(size_t i=0;i<n;++i) total*=tables; bool ok=true; for(size_t code=0;code<total&&ok;++code){ std::vector<std::vector<int>> mine(tables); size_t c=code; for(size_t i=0;i<n;++i){ mine[c%tables].push_back(int(i)); c/=tables; } if(reverse) for(auto& m:mine) std::reverse(m.begin(),m.end()); std::string id=tag+show(w,cells)+vf::fmt(" %d tables division %zu%s",tables,code,reverse?" reversed":""); vf::state(); try { std::vector<Table> in; for(auto& m:mine) in.push_back(work(w,knots,cells,m)); auto one=vertex_maps::reduce(in); ok&=judge(w,cells,one,{},id+" sequential"); vf::trans(); for(int th=1;th<=(tables>2&&every?3:1)&&ok;++th){ omp_set_num_threads(th); auto two=vertex_maps::parallel_reduce(in); omp_set_num_threads(1); vf::trans(); ok&=judge(w,cells,two,{},id+vf::fmt(" parallel %d",th)); }
      // merging leaves its inputs as they were
      for(size_t t=0;t<in.size()&&ok;++t){ std::vector<Cell> sub; auto again=work(w,knots,cells,mine[t]); bool same=again.first.preserved()==in[t].first.preserved()&&again.first.appended_count()==in[t].first.appended_count()&&again.second.data()==in[t].second.data(); VF_CHECK(same,"merging does not change its inputs",id); ok&=same; }
      // vertices added afterwards
      if(ok){ std::vector<P> extra; for(size_t k=0;k<w.corners.size();++k) if((k+code)%2) extra.push_back(w.corners[k].at); extra.push_back({7.5,-3,2}); if(w.knots.size()) extra.push_back(w.knots[code%w.knots.size()]); std::vector<std::pair<MapVertexType,ind_t>> at; for(auto& p:extra) at.push_back(one.first.add(rows({p}))); ok&=judge(w,cells,one,extra,id+" then more"); auto v=points(one.first.consolidate().pristine()); ind_t kept=one.first.preserved_count(); for(size_t k=0;k<at.size()&&ok;++k){ ind_t i=at[k].first==MapVertexType::Pristine?at[k].second:kept+at[k].second; VF_CHECK(i<v.size()&&near(v[i],extra[k]),"a vertex added after merging selects itself",id); ok&=i<v.size()&&near(v[i],extra[k]); } }
      if(every&&ok&&tables<=3) trees(w,cells,in,0,id,ok); } catch(const std::exception& e){ vf::fail("merging succeeds",id+" "+e.what()); return false; } } return ok; }
void vf_explore(){ omp_set_num_threads(1); int level=vf::thorough(), top=level?3:2;
  for(int n=1;n<=top;++n) for(int m=0;m<=top;++m) for(int which=0;which<3;++which){ World w=world(n,m,which); size_t k=w.corners.size(); std::vector<Cell> cells; for(size_t i=0;i<k;++i) cells.push_back({int(i)}); for(size_t i=0;i<k;++i) for(size_t j=0;j<k;++j) if(i!=j) cells.push_back({int(i),int(j)}); size_t ones=cells.size(); bool small=k<=(level?5:4); size_t three=level?7:13, four=level?61:211;
    // the division among the tables covers every order of the cells across tables, so cells are taken unordered
    for(size_t i=0;i<ones;++i) vf::run(w.name+vf::fmt(" first cell %zu",i),[&]{ vf::trace(); auto knots=rows(w.knots); std::string tag=w.name+" "; size_t count=i; for(size_t a=i;a<ones;++a){ for(int t=1;t<=2;++t) for(bool r:{false,true}) if(!all(w,knots,{cells[i],cells[a]},t,r,true,tag)) return; for(size_t b=a;b<ones;++b,++count){ if(!small&&count%three) continue; for(int t=2;t<=3;++t) if(!all(w,knots,{cells[i],cells[a],cells[b]},t,(a+b)%2,small||count%(level?7:39)==0,tag)) return; if(count%four==0) for(size_t c=b;c<ones;c+=level?7:11) if(!all(w,knots,{cells[i],cells[a],cells[b],cells[c]},4,c%2,false,tag)) return; } }
      // cells that record every corner, and workers that record nothing
      Cell big; for(size_t j=0;j<k;++j) big.push_back(int((j+i)%k)); for(size_t j=0;j<k;++j) big.push_back(int((k-j+i)%k)); for(int t=1;t<=(level?5:4);++t) all(w,knots,{big,cells[i],big,big},t,i%2,false,tag); for(int t=1;t<=3;++t) all(w,knots,{cells[i]},t,false,true,tag); vf::outcome(vf::fmt("%d knots %d others",n,m)); }); }
  // many workers, each with several corners, over every division of the cells
  for(int n=3;n<=(level?5:4);++n) for(int m=3;m<=(level?6:5);++m) for(int which=0;which<3;++which) for(int step=1;step<=(level?4:2);++step) vf::run(vf::fmt("many workers %d knots %d others kind %d step %d",n,m,which,step),[&]{ vf::trace(); World w=world(n,m,which); auto knots=rows(w.knots); int k=int(w.corners.size()); for(int width=2;width<=5;++width){ std::vector<Cell> cells; for(int c=0;c<5;++c){ Cell x; for(int j=0;j<width;++j) x.push_back((c*3+j*step*(c%2?1:k-1))%k); cells.push_back(x); } if(!all(w,knots,cells,level?4:3,step%2,false,w.name+" ")) return; for(int tables=5;tables<=(level?9:7);++tables){ std::vector<Cell> many; for(int c=0;c<tables;++c){ Cell x; for(int j=0;j<width;++j) x.push_back((c*2+step+j*(c%2?1:k-1)*step)%k); many.push_back(x); } for(int shift=0;shift<tables;++shift) for(int th=1;th<=3;++th){ std::vector<Table> in(tables); for(int c=0;c<tables;++c) in[(c*(tables%2?2:1)+shift)%tables]=work(w,knots,many,{c}); std::string id=w.name+vf::fmt(" %d tables width %d shift %d threads %d",tables,width,shift,th); vf::state(); vf::trans(2); omp_set_num_threads(th); auto two=vertex_maps::parallel_reduce(in); omp_set_num_threads(1); if(!judge(w,many,two,{},id+" parallel")) return; auto one=vertex_maps::reduce(in); if(!judge(w,many,one,{},id+" sequential")) return; } } } vf::outcome(vf::fmt("many %d %d",n,m)); });
  vf::run("the same cell twice",[&]{ vf::trace(); World w=world(2,1,0); auto knots=rows(w.knots); std::vector<Cell> c{{0,1}}; std::vector<Table> in{work(w,knots,c,{0}),work(w,knots,c,{0})}; vf::state(); VF_CHECK(vf::throws([&]{ vertex_maps::reduce(in); }),"a cell recorded by two workers is an error","the same cell twice"); }); }
