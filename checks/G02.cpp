// G02: tetrahedral meshes partition the volume they fill
#include "tets.hpp"
#include "nest.hpp"
#include "triangulation_simple.hpp"
#include "triangulation_poly.hpp"
#include "triangulation_layers.hpp"

using namespace brille; using namespace brille::lattice; using lat::V; using lat::M; using tets::Domain; using tets::Tet;
typedef std::vector<std::array<ind_t,4>> Idx;
static Idx idx(const bArray<ind_t>& a){ Idx r; for(ind_t i=0;i<a.size(0);++i) r.push_back({a.val(i,0),a.val(i,1),a.val(i,2),a.val(i,3)}); return r; }
static bool has(const std::vector<V>& v, const V& x, double tol){ for(auto& y:v) if(lat::norm(lat::sub(x,y))<tol) return true; return false; }
//! the corners of the body are vertices of the mesh, as is the origin where asked for
static void corners(const Domain& d, const std::vector<V>& v, bool gamma, const std::string& id){ for(auto& x:d.v) VF_CHECK(has(v,x,1e-9*d.size),"the corners of the volume are vertices",id+" "+lat::show(x)); if(gamma) VF_CHECK(has(v,{0,0,0},1e-12*d.size),"the origin is a vertex",id); }
static std::vector<V> interior(const Domain& d, int n){ std::vector<V> r; V lo{1e300,1e300,1e300},hi{-1e300,-1e300,-1e300}; for(auto& x:d.v) for(int k=0;k<3;++k){ lo[k]=std::min(lo[k],x[k]); hi[k]=std::max(hi[k],x[k]); } for(int i=0;i<=n;++i) for(int j=0;j<=n;++j) for(int k=0;k<=n;++k){ V x{lo[0]+(hi[0]-lo[0])*i/n,lo[1]+(hi[1]-lo[1])*j/n,lo[2]+(hi[2]-lo[2])*k/n}; if(d.beyond(x)<1e-13*d.size) r.push_back(x); }
  for(auto& x:d.v) r.push_back(x); for(auto& f:d.f){ V m{}; for(size_t i=0;i<f.size();++i){ m=lat::add(m,lat::mul(d.v[f[i]],1./f.size())); r.push_back(lat::mul(lat::add(d.v[f[i]],d.v[f[(i+1)%f.size()]]),0.5)); } r.push_back(m); } return r; }
static void weights(const Domain& d, const std::vector<std::pair<ind_t,double>>& w, const std::vector<V>& v, const V& x, const std::string& id){ if(w.empty()) return vf::fail("every point of the volume is found",id+" "+lat::show(x)); V y{}; double s=0; for(auto& [i,a]:w){ if(i>=v.size()) return vf::fail("a located vertex exists",id); y=lat::add(y,lat::mul(v[i],a)); s+=a; VF_CHECK(a>-1e-9,"weights are not negative",id+vf::fmt(" %g",a)); } VF_CHECK(std::abs(s-1)<1e-9,"weights add up to one",id+" "+lat::show(x)+vf::fmt(" %.15g",s)); VF_CHECK(lat::norm(lat::sub(x,y))<1e-9*d.size,"weights reproduce the point",id+" "+lat::show(x)+lat::show(y)); }
static void simple(const Domain& d, double limit, bool gamma, const std::string& id){ auto p=d.poly(); SimpleTet<double,Array2> t(p,limit,gamma); vf::trans(); vf::state(); auto v=tets::points(t.get_vertices()); auto vi=idx(t.get_vertices_per_tetrahedron()); auto ts=tets::collect(v,vi); if(!tets::partition(d,ts,limit,id)) return; corners(d,v,gamma,id);
  double most=0; for(size_t i=0;i<ts.size();++i){ VF_CHECK(lat::near(t.volume(ind_t(i)),std::abs(tets::volume(ts[i])),1e-9,d.volume*1e-6),"the stated volume of a tetrahedron",id); most=std::max(most,t.volume(ind_t(i))); auto c=t.circumsphere_info(ind_t(i)); for(auto& x:ts[i]) VF_CHECK(lat::near(lat::norm(lat::sub(x,{c[0],c[1],c[2]})),c[3],1e-6),"a circumsphere passes through its corners",id); } VF_CHECK(lat::near(t.maximum_volume(),most,1e-12),"largest volume",id); VF_CHECK(t.number_of_vertices()==v.size()&&t.number_of_tetrahedra()==ts.size()&&t.std_vertices_per_tetrahedron()==vi,"counts",id); vf::outcome(vf::fmt("simple %zu",ts.size())); 
  polyhedron::LQPolyTet<double,Array2> q(p,gamma,limit); auto v2=tets::points(q.get_vertices()); auto vi2=idx(q.get_vertices_per_tetrahedron()); auto ts2=tets::collect(v2,vi2); if(!tets::partition(d,ts2,limit,id+" other")) return; corners(d,v2,gamma,id+" other"); most=0; for(size_t i=0;i<ts2.size();++i){ VF_CHECK(lat::near(q.volume(ind_t(i)),std::abs(tets::volume(ts2[i])),1e-9,d.volume*1e-6),"the stated volume of a tetrahedron",id+" other"); most=std::max(most,q.volume(ind_t(i))); auto c=q.circumsphere_info(ind_t(i)); for(auto& x:ts2[i]) VF_CHECK(lat::near(lat::norm(lat::sub(x,{c[0],c[1],c[2]})),c[3],1e-6),"a circumsphere passes through its corners",id+" other"); } VF_CHECK(lat::near(q.maximum_volume(),most,1e-9),"largest volume",id+" other"); }
//! a polyhedron of lattice vectors
static void lattvec(const BrillouinZone& bz, bool first, double frac, bool gamma, const std::string& id){ auto p= first?bz.get_polyhedron():bz.get_ir_polyhedron(); auto d=tets::from(id,p); double limit=frac>0?d.volume*frac:-1; polyhedron::LQPolyTet<double,LVec> q(p,gamma,limit); vf::trans(); auto v=tets::points(get_xyz(q.get_vertices())); auto vi=idx(q.get_vertices_per_tetrahedron()); auto ts=tets::collect(v,vi); if(!tets::partition(d,ts,limit,id)) return; corners(d,v,gamma,id); for(size_t i=0;i<ts.size();++i) VF_CHECK(lat::near(q.volume(ind_t(i)),std::abs(tets::volume(ts[i])),1e-8,d.volume*1e-6),"the stated volume of a tetrahedron",id); }
static bool layer_ok(const Domain& d, const TetTriLayer& l, double limit, const std::vector<V>& xs, const std::string& id){ auto v=tets::points(l.get_vertex_positions()); auto vi=idx(l.get_vertices_per_tetrahedron()); auto ts=tets::collect(v,vi); if(!tets::partition(d,ts,limit,id)) return false; corners(d,v,false,id); double sum=0,lo=1e300,hi=0; for(size_t i=0;i<ts.size();++i){ double w=l.volume(ind_t(i)); sum+=w; lo=std::min(lo,w); hi=std::max(hi,w); VF_CHECK(lat::near(w,std::abs(tets::volume(ts[i])),1e-9,d.volume*1e-6),"the stated volume of a tetrahedron",id); auto q=tets::points(l.get_tetrahedron(ind_t(i)).vertices()); VF_CHECK(q.size()==4,"a tetrahedron as a polyhedron",id); auto gp=l.get_tetrahedron(ind_t(i)); VF_CHECK(lat::near(gp.volume(),w,1e-9,d.volume*1e-6),"the volume of a tetrahedron as a polyhedron",id); }
  auto st=l.volume_statistics(); VF_CHECK(lat::near(st[0],sum,1e-12)&&st[1]==lo&&st[2]==hi,"volume statistics",id);
  auto pr=tets::pairs(vi); for(size_t i=0;i<v.size();++i){ std::set<size_t> want,have; for(auto& [a,b]:pr) if(a==i) want.insert(b); for(auto n:l.neighbours(ind_t(i))) have.insert(n); VF_CHECK(want==have,"the neighbours of a vertex share a tetrahedron with it",id); }
  for(auto& x:xs){ std::vector<std::pair<ind_t,double>> w; auto f=l.locate(Domain::array({x}),w); if(f>=ts.size()) { vf::fail("each point lies in a cell of the layer",id+" "+lat::show(x)); continue; } weights(d,w,v,x,id); for(auto& [i,a]:w) VF_CHECK(std::find(vi[f].begin(),vi[f].end(),i)!=vi[f].end(),"the located vertices are those of the cell",id); VF_CHECK(l.contains(f,Domain::array({x}))&&l.might_contain(f,Domain::array({x})),"the located cell contains the point",id); vf::trans(); } return true; }
static void layers(const Domain& d, const std::vector<double>& fr, const std::string& id, int n){ auto xs=interior(d,n); std::vector<TetTriLayer> ls; bool ok=true; for(double f:fr){ double lim=f>0?d.volume*f:-1; ls.push_back(triangulate_one_layer(Domain::array(d.v),d.f,lim,-1)); vf::trans(); ok&=layer_ok(d,ls.back(),lim,xs,id+vf::fmt(" layer %g",f)); } if(!ok) return; TetTri t(ls); auto v=tets::points(t.get_vertex_positions()); vf::state(); for(auto& x:xs) weights(d,t.locate(Domain::array({x})),v,x,id+" stack"); auto vi=idx(t.get_vertices_per_tetrahedron()); for(auto& q:tets::collect(v,vi)){ V c=lat::mul(lat::add(lat::add(q[0],q[1]),lat::add(q[2],q[3])),0.25); weights(d,t.locate(Domain::array({c})),v,c,id+" centre"); for(auto& x:q){ auto w=t.locate(Domain::array({x})); VF_CHECK(w.size()==1&&std::abs(w[0].second-1)<1e-9&&lat::norm(lat::sub(v[w[0].first],x))<1e-9*d.size,"a stored vertex is found on its own",id+" "+lat::show(x)); } } }
static void stack(const Domain& d, double frac, int count, const std::string& id){ double lim=frac>0?d.volume*frac:-1; auto t=triangulate(Domain::array(d.v),d.f,lim,count,-1); vf::trans(); vf::state(); auto v=tets::points(t.get_vertex_positions()); auto vi=idx(t.get_vertices_per_tetrahedron()); if(!tets::partition(d,tets::collect(v,vi),lim,id)) return; corners(d,v,false,id); for(auto& x:interior(d,6)) weights(d,t.locate(Domain::array({x})),v,x,id); VF_CHECK(t.number_of_tetrahedra()==vi.size()&&t.number_of_vertices()==v.size(),"counts",id); auto pr=tets::pairs(vi); size_t n=v.size(); std::set<size_t> keys; for(auto& [a,b]:pr) if(a<b) { std::array<size_t,2> x{a,b}; auto k=permutation_table_keys_from_indicies(x.begin(),x.end(),n); keys.insert(k.begin(),k.end()); } VF_CHECK(t.collect_keys()==keys,"keys of the connected vertices",id); for(size_t i=0;i<n;i+=3){ std::set<size_t> want,have; for(auto& [a,b]:pr) if(a==i) want.insert(b); for(auto q:t.neighbours(Domain::array({v[i]}))) have.insert(q); VF_CHECK(want==have,"the neighbours of a vertex share a tetrahedron with it",id); } }
template<class Z> void nest(const Domain& d, Z x, double limit, ind_t nb, const std::string& id){ Nest<double,double,double,Array2> n(d.poly(),x,nb); vf::trans(); vf::state(); auto v=tets::points(n.vertices()); auto vi=n.tetrahedra(); auto ts=tets::collect(v,vi); if(!tets::partition(d,ts,limit,id)) return; corners(d,v,false,id); VF_CHECK(n.vertex_count()==v.size(),"counts",id); for(auto& p:interior(d,6)) weights(d,n.indices_weights(Domain::array({p})),v,p,id); std::vector<bool> leaf(v.size(),false); for(auto& t:vi) for(auto i:t) leaf[i]=true; VF_CHECK(n.vertex_is_leaf()==leaf,"vertices of the smallest cells",id); for(auto& q:ts) for(auto& y:q){ auto w=n.indices_weights(Domain::array({y})); V z{}; double s=0; for(auto& [i,a]:w){ z=lat::add(z,lat::mul(v[i],a)); s+=a; } VF_CHECK(!w.empty()&&std::abs(s-1)<1e-9&&lat::norm(lat::sub(z,y))<1e-9*d.size,"a stored vertex is found",id+" "+lat::show(y)); } for(size_t i=0;i<v.size();++i) for(size_t j=0;j<i;++j) VF_CHECK(lat::norm(lat::sub(v[i],v[j]))>1e-9*d.size,"vertices are distinct",id); vf::outcome(vf::fmt("nest %zu",ts.size())); }
static void all(const Domain& d, int level){ std::string id=d.name; bool inside=d.beyond({0,0,0})<1e-12*d.size; vf::trace();
  for(double f: {-1.,2.,0.5,0.1,0.02,0.004}){ if(f==0.004&&level<1) continue; double lim=f>0?d.volume*f:-1; for(int g=0;g<1+int(inside);++g) simple(d,lim,g,id+vf::fmt(" simple %g %d",f,g)); }
  for(int c: {0,1,2,3,5}) for(double f: {-1.,0.3,0.03}) if(level||(c!=3&&(c!=5||f>0))) stack(d,f,c,id+vf::fmt(" stack %d %g",c,f));
  layers(d,{-1,0.2,0.03},id,level?8:4); layers(d,{0.1,0.1},id+" equal",4); layers(d,{0.02,0.5},id+" growing",3); if(level) layers(d,{0.5,0.1,0.05,0.01},id+" four",5);
  for(ind_t nb: {1u,2u,3u,5u}) for(double f: {1.5,0.2,0.02}) if(level||nb<5||f==0.02) nest(d,d.volume*f,d.volume*f,nb,id+vf::fmt(" nest %u %g",nb,f)); for(ind_t rho: {1u,20u}) nest(d,rho,d.volume/rho,5u,id+vf::fmt(" nest of density %u",rho)); }
void vf_explore(){ int level=vf::thorough(); for(auto& d: tets::bodies()) vf::run(d.name,[&]{ all(d,level); });
  for(int h: tets::halls()) for(int shape=0;shape<(level?3:1);++shape) for(int first=0;first<2;++first){ if(first&&!level&&h%3) continue; std::string id=vf::fmt("hall %d shape %d %s zone",h,shape,first?"first":"irreducible"); vf::run(id,[&]{ auto bz=tets::zone(h,shape); all(first?tets::from(id,bz.get_polyhedron()):tets::from(id,bz.get_ir_polyhedron()),level); for(double f: {-1.,0.1}) for(int g=0;g<2;++g) lattvec(bz,first,f,g,id+vf::fmt(" lattice %g %d",f,g)); }); } }
