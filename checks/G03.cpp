// G03: locating a point returns weights that reproduce it, and reports points outside
#include "cells.hpp"
#include <omp.h>
#include "nest.hpp"
#include "triangulation_layers.hpp"
using namespace brille; using namespace brille::lattice; using namespace brille::polytrellis; using lat::V; using tets::Domain; using tets::Tet; using namespace cells;
typedef std::vector<std::pair<ind_t,double>> W; typedef std::vector<std::vector<size_t>> Groups;
static V mix(const std::vector<V>& p, const std::vector<double>& w){ V r{}; double s=0; for(double x:w) s+=x; for(size_t i=0;i<p.size();++i) r=lat::add(r,lat::mul(p[i],w[i]/s)); return r; }
//! points inside, on the faces, edges and corners of a tetrahedron or cuboid
static void of_tet(std::vector<V>& r, const std::vector<V>& p, int m){ vf::power(m+1,4,[&](const std::vector<int>& c){ int s=0; for(int x:c) s+=x; if(s!=m) return; std::vector<double> w; for(int x:c) w.push_back(x); r.push_back(mix(p,w)); }); r.push_back(mix(p,{1e-6,1,1,1})); r.push_back(mix(p,{1,1,1e-9,0.3})); r.push_back(mix(p,{1,1e-14,1e-13,0.5})); r.push_back(mix(p,{0.2,1,0.7,0.4})); }
static void of_box(std::vector<V>& r, const V& lo, const V& hi){ static const double f[]={0,1e-13,1e-9,0.25,0.5,0.7,1}; for(double a:f) for(double b:f) for(double c:f){ if((a>0&&a<1e-3)+(b>0&&b<1e-3)+(c>0&&c<1e-3)>1) continue; r.push_back({lo[0]+a*(hi[0]-lo[0]),lo[1]+b*(hi[1]-lo[1]),lo[2]+c*(hi[2]-lo[2])}); } }
static std::vector<V> surface(const Domain& d, int m){ std::vector<V> r; for(auto& f:d.f) for(size_t i=1;i+1<f.size();++i) vf::power(m+1,3,[&](const std::vector<int>& c){ if(c[0]+c[1]+c[2]!=m) return; r.push_back(mix({d.v[f[0]],d.v[f[i]],d.v[f[i+1]]},{double(c[0]),double(c[1]),double(c[2])})); }); return r; }
static std::vector<V> outside(const Domain& d){ std::vector<V> r; auto s=surface(d,2); for(auto& x:s) for(double e:{1e-4,1e-2,0.3,3.}){ for(auto& p:d.p) if(std::abs(lat::dot(p.n,x)-p.d)<1e-9*d.size) r.push_back(lat::add(x,lat::mul(p.n,e*d.size))); r.push_back(lat::add(x,lat::mul(lat::sub(x,d.c),e))); } std::vector<V> q; for(auto& x:r) if(d.beyond(x)>0.9e-4*d.size*0.05) q.push_back(x);
  for(int k=0;k<3;++k) for(int s:{-1,1}) for(double h:{1e3,1e12,1e300}){ V x=d.c; x[k]=s*h*d.size; q.push_back(x); } return q; }
static std::vector<V> nonsense(const Domain& d){ std::vector<V> r; for(int k=0;k<3;++k) for(double h:{std::nan(""),double(INFINITY),-double(INFINITY)}){ V x=d.c; x[k]=h; r.push_back(x); } return r; }
template<class L> static void found(const Domain& d, const std::vector<V>& v, const Groups& g, const std::vector<V>& xs, const std::string& id, L locate){ std::set<std::vector<size_t>> sets; std::map<size_t,std::vector<size_t>> by; for(size_t i=0;i<g.size();++i) for(auto x:g[i]) by[x].push_back(i); double tol=1e-9*d.size;
  for(auto& x:xs){ vf::trans(); W w; try{ w=locate(x); } catch(const std::exception& e){ vf::fail("every point of the volume is found",id+" "+lat::show(x)+" "+e.what()); continue; } if(w.empty()){ vf::fail("every point of the volume is found",id+" "+lat::show(x)); continue; }
    V y{}; double s=0; bool ok=true; std::vector<size_t> common; bool start=true; for(auto& [i,a]:w){ if(i>=v.size()){ vf::fail("a located vertex exists",id); ok=false; break; } y=lat::add(y,lat::mul(v[i],a)); s+=a; if(!(a>-1e-7)){ vf::fail("weights are not negative",id+" "+lat::show(x)+vf::fmt(" %g",a)); ok=false; break; } if(start) common=by[i]; else { std::vector<size_t> q; for(auto c:common) if(std::find(g[c].begin(),g[c].end(),i)!=g[c].end()) q.push_back(c); common=q; } start=false; } if(!ok) continue;
    VF_CHECK(std::abs(s-1)<1e-7,"weights add up to one",id+" "+lat::show(x)+vf::fmt(" %.15g",s)); VF_CHECK(lat::norm(lat::sub(x,y))<tol,"weights reproduce the point",id+" "+lat::show(x)+vf::fmt(" off by %g",lat::norm(lat::sub(x,y))/d.size)); VF_CHECK(!common.empty(),"the vertices belong to one cell",id+" "+lat::show(x)); std::set<ind_t> u; for(auto& q:w) u.insert(q.first); VF_CHECK(u.size()==w.size(),"a vertex is named once",id+" "+lat::show(x)); vf::outcome(vf::fmt("%zu vertices",w.size())); } }
template<class L> static void missing(const Domain& d, const std::string& id, L locate){ auto xs=outside(d); auto n=nonsense(d); xs.insert(xs.end(),n.begin(),n.end()); for(auto& x:xs){ vf::trans(); bool hit=false; try { hit=!locate(x).empty(); } catch(const std::exception&){} VF_CHECK(!hit,"points outside are reported",id+" "+lat::show(x)+vf::fmt(" beyond by %g",d.beyond(x)/d.size)); } vf::outcome("outside"); }
static std::vector<V> pick(const std::vector<V>& v, const std::vector<size_t>& i){ std::vector<V> r; for(auto k:i) r.push_back(v[k]); return r; }
//! points a rounding error away from a vertex
template<class L> static void around(const Domain& d, const Grid& g, const Groups& gr, const std::string& id, L f){ std::vector<V> xs; for(size_t i=0;i<g.x.size();++i) for(int k=1;k<27;k+=g.x.size()>80?1+int(i%5):1){ V x=g.x[i]; static const double step[]={0,1e-14,-1e-14}; x[0]+=step[k%3]*d.size; x[1]+=step[k/3%3]*d.size; x[2]+=step[k/9]*d.size; if(d.beyond(x)<1e-16*d.size) xs.push_back(x); } found(d,g.x,gr,xs,id+" beside a vertex",f); }
//! what a hybrid grid says of its cells
template<class T> static void lists(const T& t, const Grid& g, const std::string& id){ std::set<size_t> cube,poly; for(auto& [i,c]:g.c) for(auto v:c.v) (c.cube?cube:poly).insert(v); auto same=[&](const std::set<size_t>& want, const auto& a){ auto x=tets::points(get_xyz(a)); if(x.size()!=want.size()) return false; size_t k=0; for(auto i:want) if(lat::norm(lat::sub(x[k++],g.x[i]))>0) return false; return true; }; VF_CHECK(same(cube,t.cube_vertices()),"the vertices of the cuboid cells",id); VF_CHECK(same(poly,t.poly_vertices()),"the vertices of the cells at the surface",id);
  for(size_t i=0;i<g.types.size();++i){ std::set<size_t> want,have; auto s=g.sub(i); for(int k=0;k<27;++k) if(k!=13){ std::array<long,3> n{long(s[0])+k%3-1,long(s[1])+k/3%3-1,long(s[2])+k/9-1}; bool in=true; for(int j=0;j<3;++j) in&=n[j]>=0&&n[j]<long(g.n[j]); if(!in) continue; size_t q=n[0]+g.n[0]*(n[1]+g.n[1]*n[2]); if(g.c.count(q)) want.insert(q); } size_t count=0; for(auto q:t.node_neighbours(ind_t(i))){ have.insert(q); ++count; } vf::trans(); VF_CHECK(want==have&&count==want.size(),"the neighbouring cells of a cell",id+vf::fmt(" cell %zu",i)); } }
//! the boundary kept with a grid is that of the volume
template<class T> static void bounds(const T& t, const Grid& g, const Domain& d, const std::string& id){ HighFive::File f("boundary",HighFive::File::Overwrite); t.to_hdf(f,"e"); auto group=f.getGroup("e"); auto faces=polyhedron::Faces::from_hdf(group,"boundary").faces(); bool ok=faces.size()==d.f.size(); for(size_t i=0;ok&&i<faces.size();++i){ ok&=faces[i].size()==d.f[i].size(); for(size_t j=0;ok&&j<faces[i].size();++j) ok&=size_t(faces[i][j])<g.x.size()&&lat::norm(lat::sub(g.x[faces[i][j]],d.v[d.f[i][j]]))<1e-9*d.size; } VF_CHECK(ok,"the boundary kept with a grid is that of the volume",id); }
template<class T, class F> static void trellis(const T& t, const Domain& d, double lim, int m, const std::string& id, F wrap){ vf::state(); auto g=grid(t,d,lim); Groups gr; std::vector<V> xs; for(auto& [i,c]:g.c){ if(c.cube){ gr.push_back(c.v); of_box(xs,g.x[c.v[0]],g.x[c.v[7]]); } else { for(auto& q:c.t){ std::vector<size_t> k(q.begin(),q.end()); gr.push_back(k); of_tet(xs,pick(g.x,k),m); } } }
  auto s=surface(d,m+1); xs.insert(xs.end(),s.begin(),s.end()); auto f=[&](const V& x){ return t.indices_weights(wrap(x)); }; found(d,g.x,gr,xs,id,f); missing(d,id,f); around(d,g,gr,id,f); lists(t,g,id); if constexpr(std::is_same_v<T,PolyTrellis<double,double,double,Array2>>) bounds(t,g,d,id); for(size_t i=0;i<g.x.size();++i){ W w; try{ w=f(g.x[i]); } catch(...) {} double own=0; for(auto& q:w) if(q.first==i) own=q.second; VF_CHECK(own>1-1e-9,"a stored vertex is found as itself",id+" "+lat::show(g.x[i])); } }
template<class I, class L> static void mesh(const Domain& d, const std::vector<V>& v, const I& vi, int m, const std::string& id, L f){ vf::state(); Groups gr; std::vector<V> xs; for(auto& q:vi){ std::vector<size_t> k(q.begin(),q.end()); gr.push_back(k); of_tet(xs,pick(v,k),m); } auto s=surface(d,m+1); xs.insert(xs.end(),s.begin(),s.end()); found(d,v,gr,xs,id,f); missing(d,id,f); }
static std::vector<std::array<ind_t,4>> idx(const bArray<ind_t>& a){ std::vector<std::array<ind_t,4>> r; for(ind_t i=0;i<a.size(0);++i) r.push_back({a.val(i,0),a.val(i,1),a.val(i,2),a.val(i,3)}); return r; }
static void all(const Domain& d, int level, bool bare){ vf::trace(); auto one=[](const V& x){ return Domain::array({x}); }; int m=level?4:2; typedef PolyTrellis<double,double,double,Array2> T;
  for(double f: level?std::vector<double>{2,0.3,0.08,0.02}:std::vector<double>{2,0.3,0.05}) for(int always=0;always<2;++always){ if(!level&&always&&f!=0.05) continue; double lim=f*d.volume; int most=omp_get_max_threads(); omp_set_num_threads(always==(f<0.1)?1:3); T t(d.poly(),lim,bool(always)); omp_set_num_threads(most); trellis(t,d,lim,m,d.name+vf::fmt(" trellis %g%s",f,always?" triangulated":""),one); }
  for(int c: {0,1,3}) for(double f:{-1.,0.05}){ if(!level&&c==3&&f<0) continue; auto t=triangulate(Domain::array(d.v),d.f,f>0?f*d.volume:-1,c,-1); mesh(d,tets::points(t.get_vertex_positions()),idx(t.get_vertices_per_tetrahedron()),m,d.name+vf::fmt(" mesh %d %g",c,f),[&](const V& x){ return t.locate(one(x)); }); }
  for(ind_t nb:{1u,3u}) for(double f:{0.5,0.02}){ if(!level&&nb==1&&f<0.1) continue; Nest<double,double,double,Array2> n(d.poly(),f*d.volume,nb); mesh(d,tets::points(n.vertices()),n.tetrahedra(),m,d.name+vf::fmt(" nest %u %g",nb,f),[&](const V& x){ return n.indices_weights(one(x)); }); } }
void vf_explore(){ int level=vf::thorough(); for(auto& d: tets::bodies()) vf::run(d.name,[&]{ all(d,level,true); });
  for(int h: tets::halls()) for(int shape=0;shape<(level?3:1);++shape){ std::string id=vf::fmt("hall %d shape %d",h,shape); vf::run(id,[&]{ auto bz=tets::zone(h,shape); for(int first=0;first<2;++first){ if(first&&!level&&h%3) continue; auto q=first?bz.get_polyhedron():bz.get_ir_polyhedron(); auto d=tets::from(id+(first?" first zone":" irreducible zone"),q); all(d,level,false); if(!first||level){ double lim=0.05*d.volume; PolyTrellis<double,double,double,LVec> t(q,lim,false); trellis(t,d,lim,level?4:2,d.name+" lattice vectors",[&](const V& x){ return from_xyz_like(LengthUnit::inverse_angstrom,bz.get_lattice(),Domain::array({x})); }); } } }); } }
