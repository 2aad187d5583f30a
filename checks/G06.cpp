// G06: the cells of the hybrid grid tile the gridded polyhedron and share vertices
#include "cells.hpp"
#include <omp.h>
using namespace brille; using namespace brille::lattice; using namespace brille::polytrellis; using lat::V; using tets::Domain; using tets::Tet; using namespace cells;
template<class T> static bool check(const T& t, const Domain& d, double limit, bool always, const std::string& id){
  auto g=grid(t,d,limit); double tol=1e-8*d.size; vf::state(); vf::trans(g.c.size()); size_t cubes=0,polys=0; double total=0; bool inside=d.beyond({0,0,0})<1e-12*d.size; 
  for(int k=0;k<3;++k){ double l=0,h=0; for(auto& x:d.v){ l=std::min(l,x[k]-g.lo[k]); h=std::max(h,x[k]-g.lo[k]); } if(std::abs(g.step[k]*double(g.n[k])-h)>1e-6*h && std::abs(g.step[k]*double(g.n[k]-1)-h)>1e-6*h){ vf::fail("the bins cover the volume",id); return false; } }
  if(g.types.size()!=g.n[0]*g.n[1]*g.n[2]){ vf::fail("one cell per bin",id); return false; }
  for(size_t i=0;i<g.x.size();++i){ for(size_t j=0;j<i;++j) if(lat::norm(lat::sub(g.x[i],g.x[j]))<1e-9*d.size){ vf::fail("coinciding corners share one vertex",id+vf::fmt(" %zu %zu ",i,j)+lat::show(g.x[i])); return false; } }
  for(auto& x:g.x) if(d.beyond(x)>tol){ vf::fail("the vertices lie in the gridded volume",id+" "+lat::show(x)); return false; }
  std::vector<bool> used(g.x.size(),false); bool origin=false; for(auto& x:g.x) origin|=lat::norm(x)<1e-9*d.size; if(inside) VF_CHECK(origin,"the origin is a vertex when it is in the volume",id);
  for(auto& x:d.v){ bool f=false; for(auto& y:g.x) f|=lat::norm(lat::sub(x,y))<1e-8*d.size; if(!f){ vf::fail("the corners of the volume are vertices",id+" "+lat::show(x)); return false; } }
  for(auto& [i,c]:g.c){ for(auto v:c.v){ if(v>=g.x.size()){ vf::fail("a corner refers to a stored vertex",id); return false; } used[v]=true; }
    if(c.cube){ ++cubes; if(c.v.size()!=8){ vf::fail("a cuboid has eight corners",id); return false; } for(int k=0;k<8;++k){ V w=g.corner(i,ORDER[k][0],ORDER[k][1],ORDER[k][2]); if(lat::norm(lat::sub(w,g.x[c.v[k]]))>tol){ vf::fail("the corners of a cuboid are those of its bin",id+vf::fmt(" cell %zu corner %d ",i,k)+lat::show(g.x[c.v[k]])+" expected "+lat::show(w)); return false; } } total+=g.step[0]*g.step[1]*g.step[2]; VF_CHECK(!always,"every cell is triangulated where asked",id); if(inside&&always==false){ bool in=true; V lo=g.corner(i,0,0,0),hi=g.corner(i,1,1,1); for(int k=0;k<3;++k) in&= lo[k]<-tol&&hi[k]>tol; VF_CHECK(!in,"the origin is not inside a cuboid",id); } }
    else { ++polys; auto bin=g.bin(i); std::vector<Tet> ts; double sum=0; if(c.t.empty()){ vf::fail("a cell at the surface has tetrahedra",id); return false; } for(auto& q:c.t){ Tet x; for(int k=0;k<4;++k){ x[k]=g.x[q[k]]; if(solid::beyond(bin,x[k])>tol){ vf::fail("the vertices of a cell lie in its bin",id+vf::fmt(" cell %zu ",i)+lat::show(x[k])); return false; } } double v=std::abs(tets::volume(x)); if(v<1e-12*d.volume/double(g.types.size())) { vf::fail("a tetrahedron has volume",id+vf::fmt(" cell %zu %g",i,v)); return false; } sum+=v; ts.push_back(x); }
      for(size_t a=0;a<ts.size();++a) for(size_t b=0;b<a;++b) if(tets::overlap(ts[a],ts[b])>tol){ vf::fail("the tetrahedra of a cell do not overlap",id+vf::fmt(" cell %zu",i)); return false; }
      double stated=t.poly_node(ind_t(i)).volume(t.vertices()); VF_CHECK(lat::near(stated,sum,1e-8,d.volume*1e-6),"the stated volume of a cell",id+vf::fmt(" cell %zu %g %g",i,stated,sum)); total+=sum; } }
  for(size_t i=0;i<used.size();++i) VF_CHECK(used[i],"every stored vertex belongs to a cell",id+vf::fmt(" %zu ",i)+lat::show(g.x[i]));
  if(!lat::near(total,d.volume,1e-8)){ vf::fail("the volumes of the cells add up",id+vf::fmt(" %.12g expected %.12g",total,d.volume)); return false; }
  VF_CHECK(lat::near(t.total_node_volume(),total,1e-8),"the stated total volume",id+vf::fmt(" %g %g",t.total_node_volume(),total)); VF_CHECK(t.vertex_count()==g.x.size(),"counts",id);
  // boundary vertices, cube and poly vertices
  std::set<size_t> cv,pv; for(auto& [i,c]:g.c) for(auto v:c.v) (c.cube?cv:pv).insert(v); VF_CHECK(t.cube_vertices().size(0)==cv.size()&&t.poly_vertices().size(0)==pv.size(),"vertices of each kind of cell",id);
  vf::outcome(vf::fmt("%zu cuboids %zu polyhedra",cubes,polys)); return true; }
template<class T, class P> static void all(const P& p, const Domain& d, const std::vector<double>& fr, int threads, const std::string& id){ vf::trace(); for(double f:fr) for(int always=0;always<2;++always){ std::string tag=id+vf::fmt(" size %g%s",f,always?" triangulated":""); double lim=d.volume*f; std::map<size_t,std::set<std::string>> first; std::vector<NodeType> types; size_t nv=0;
    for(int th=1;th<=threads;++th){ std::string tt=tag+vf::fmt(" threads %d",th); omp_set_num_threads(th); try { T t(p,lim,bool(always)); if(!check(t,d,lim,always,tt)) break; auto g=grid(t,d,lim); auto por=portrait(g,d.size); if(th==1){ first=por; types=g.types; nv=g.x.size(); } else { VF_CHECK(types==g.types,"the kinds of cell do not depend on the number of threads",tt); VF_CHECK(nv==g.x.size(),"the number of vertices does not depend on the number of threads",tt); VF_CHECK(por==first,"the cells do not depend on the number of threads",tt); } } catch(const std::exception& e){ vf::fail("the grid can be built",tt+" "+e.what()); break; } } } }
void vf_explore(){ int level=vf::thorough(); typedef PolyTrellis<double,double,double,Array2> A; typedef PolyTrellis<double,double,double,LVec> L; std::vector<double> fr{2.,0.3,0.08,0.02}; if(level) fr={2.,0.5,0.2,0.1,0.05,0.02,0.008}; int threads=level?4:3;
  for(auto& d: tets::bodies()) vf::run(d.name,[&]{ all<A>(d.poly(),d,fr,threads,d.name); });
  for(int h: tets::halls()) for(int shape=0;shape<(level?3:1);++shape){ std::string id=vf::fmt("hall %d shape %d",h,shape); vf::run(id,[&]{ auto bz=tets::zone(h,shape); for(int first=0;first<2;++first){ auto q=first?bz.get_polyhedron():bz.get_ir_polyhedron(); auto d=tets::from(id,q); auto frz=fr; if(first&&!level) frz={0.1}; all<A>(typename A::poly_t(q.vertices().xyz(),q.faces()),d,frz,threads,id+(first?" first zone":" irreducible zone")); if(!first||level) all<L>(q,d,level?fr:std::vector<double>{0.1},1,id+(first?" first zone":" irreducible zone")+" lattice vectors"); } }); } }
