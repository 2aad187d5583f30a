// multi-threaded operations on small inputs, and what each of them returns as numbers
#pragma once
#include "sched.hpp"
#include "tets.hpp"
#include "turns.hpp"
#include "bz_trellis.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
#include "vertex_map_set.h"
#include "vertex_index_map.h"
#include "vertex_map_knit.h"
#include <omp.h>
namespace conc {
using namespace brille; using namespace brille::lattice; using namespace turns; using tets::Domain; using lat::V;
typedef std::vector<double> Digest;
//! run(threads) performs the operation and returns what it produced; cost orders operations by size
struct Op { std::string name; std::function<Digest(int)> run; double tol=0; int two=2, three=1; /* preemptions in the quick tier */ bool heavy=false, long_=false; };
template<class A> void put(Digest& d, const A& a){ d.push_back(a.size(0)); for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j) d.push_back(double(a.val(i,j))); }
inline void put(Digest& d, const Array2<C>& a){ d.push_back(a.size(0)); for(ind_t i=0;i<a.size(0);++i) for(ind_t j=0;j<a.size(1);++j){ d.push_back(a.val(i,j).real()); d.push_back(a.val(i,j).imag()); } }
template<class T> void put(Digest& d, const std::vector<T>& v){ d.push_back(v.size()); for(auto x:v) d.push_back(double(x)); }
inline bool alike(const Digest& a, const Digest& b, double tol){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!(a[i]==b[i]||std::abs(a[i]-b[i])<=tol*(1+std::abs(a[i]))) && !(std::isnan(a[i])&&std::isnan(b[i]))) return false; return true; }
inline LVec<double> points(const Lattice<double>& L, int n, double scale, int seed){ LVec<double> q(LengthUnit::inverse_angstrom,L,ind_t(n)); for(int i=0;i<n;++i) for(int k=0;k<3;++k) q.val(i,k)=scale*num(i*3+k,seed)+(i==1?0.5:0); return q; }
template<class T> Interpolator<T> field(const std::vector<V>& v, const Elements& e, RotatesLike like, LengthUnit unit, int seed){ std::vector<ind_t> sh{ind_t(v.size()),e.b,e.span()}; Array2<T> b(ind_t(v.size()),e.b*e.span()); for(ind_t i=0;i<v.size();++i) for(ind_t j=0;j<e.b*e.span();++j) b.val(i,j)=T(num(j,seed)+1.5+0.2*(num(j,seed+1)*v[i][0]+num(j,seed+2)*v[i][1]+num(j,seed+3)*v[i][2])); return Interpolator<T>(b,sh,{e.s,3*e.v,9*e.m},like,unit); }
inline std::vector<V> sorted(std::vector<V> v){ for(auto& x:v) for(auto& y:x) y=std::round(y*1e9)/1e9+0.0; std::sort(v.begin(),v.end()); return v; }
//! zones of different families, centrings, with and without inversion
inline std::vector<int> families(int level){ return level?std::vector<int>{2,12,108,125,355,433,488,523}:std::vector<int>{2,108,355,433,523}; }
inline std::vector<Op> zones(int level){ std::vector<Op> r; for(int hall:families(level)){ auto bz=std::make_shared<BrillouinZone>(tets::zone(hall,0)); auto L=bz->get_lattice(); std::string z=vf::fmt("hall %d ",hall); int n=level?4:3; auto Q=points(L,n,2.0,hall);
    r.push_back({z+"moveinto",[=](int t){ LVec<double> q(LengthUnit::inverse_angstrom,L,ind_t(n)); LVec<int> tau(LengthUnit::inverse_angstrom,L,ind_t(n)); bz->moveinto(Q,q,tau,t); Digest d; put(d,q); put(d,tau); return d; },0,3,1});
    r.push_back({z+"ir_moveinto",[=](int t){ LVec<double> q(LengthUnit::inverse_angstrom,L,ind_t(n)); LVec<int> tau(LengthUnit::inverse_angstrom,L,ind_t(n)); std::vector<size_t> R,iR; bz->ir_moveinto(Q,q,tau,R,iR,t); Digest d; put(d,q); put(d,tau); put(d,R); put(d,iR); return d; },0,2,1});
    r.push_back({z+"ir_moveinto_wedge",[=](int t){ LVec<double> q(LengthUnit::inverse_angstrom,L,ind_t(n)); std::vector<size_t> R; bz->ir_moveinto_wedge(Q,q,R,t); Digest d; put(d,q); put(d,R); return d; },0,4,2});
    r.push_back({z+"isinside_wedge",[=](int t){ omp_set_num_threads(t); auto v=bz->isinside_wedge(Q); Digest d; put(d,v); return d; },0,5,3});
    if(hall!=2){ auto P=points(L,n,1.5,3); r.push_back({z+"transform_to_primitive",[=](int t){ Digest d; put(d,parallel_transform_to_primitive(L,P,t)); return d; },0,4,3}); auto p=transform_to_primitive(L,P); r.push_back({z+"transform_from_primitive",[=](int t){ Digest d; put(d,parallel_transform_from_primitive(L,p,t)); return d; },0,4,3}); } }
  return r; }
//! grids in an irreducible zone, holding data of every kind
struct Frame { const char* name; RotatesLike like; LengthUnit unit; };
inline const std::vector<Frame>& frames(){ static const std::vector<Frame> f{{"real",RotatesLike::vector,LengthUnit::real_lattice},{"axial",RotatesLike::pseudovector,LengthUnit::real_lattice},{"reciprocal",RotatesLike::vector,LengthUnit::reciprocal_lattice},{"phonon",RotatesLike::Gamma,LengthUnit::angstrom}}; return f; }
template<class Grid> void grid(std::vector<Op>& r, const std::string& name, std::shared_ptr<Grid> g, const std::vector<V>& v, const Lattice<double>& L, size_t atoms, const LVec<double>& Q, const LVec<double>& inside, int level){
  for(size_t k=0;k<frames().size();++k){ bool ph=k==3; if(ph&&!atoms) continue; auto f=frames()[k]; Elements ea{1,1,1,1}, eb=ph?Elements{0,ind_t(atoms),0,1}:Elements{0,1,0,2}; ea.b=eb.b; auto h=std::make_shared<Grid>(*g); auto a=field<double>(v,ea,frames()[ph?2:k].like,frames()[ph?2:k].unit,int(k)); auto b=field<C>(v,eb,f.like,f.unit,int(k)+1); h->replace_data(a,b);
    auto out=[](auto& pr){ Digest d; Array2<double> x(std::get<0>(pr)); Array2<C> y(std::get<1>(pr)); put(d,x); put(d,y); return d; };
    r.push_back({name+" "+f.name+" ir_interpolate_at",[=](int t){ auto p=h->ir_interpolate_at(Q,t); return out(p); },1e-12,2,1});
    if(k<3) r.push_back({name+" "+f.name+" interpolation within the zone",[=](int t){ auto p=h->template ir_interpolate_at<true>(inside,t); return out(p); },1e-12,3,2}); }
  // matrices of atom pairs
  if(atoms&&atoms<=8&&name.find("trellis")!=std::string::npos){ auto h=std::make_shared<Grid>(*g); auto n=ind_t(atoms); auto a=field<double>(v,{1,0,0,1},RotatesLike::vector,LengthUnit::real_lattice,2); auto b=field<C>(v,{0,n,n*n,1},RotatesLike::Gamma,LengthUnit::angstrom,5); h->replace_data(a,b); r.push_back({name+" atom pairs ir_interpolate_at",[=](int t){ auto p=h->ir_interpolate_at(Q,t); Digest d; Array2<double> x(std::get<0>(p)); Array2<C> y(std::get<1>(p)); put(d,x); put(d,y); return d; },1e-12,1,1}); }
  // matching modes
  { auto h=std::make_shared<Grid>(*g); Elements e{1,1,0,2}; auto a=field<double>(v,e,RotatesLike::vector,LengthUnit::real_lattice,3); auto b=field<C>(v,e,RotatesLike::vector,LengthUnit::real_lattice,8); h->replace_data(a,b); r.push_back({name+" sort",[=](int t){ Grid c(*h); omp_set_num_threads(t); c.sort(); Digest d; auto& D=c.data(); auto n=ind_t(v.size()); for(ind_t i=0;i<n;++i) for(ind_t j=0;j<n;++j){ if(i==j) continue; try{ put(d,D.get_permutation(i,j)); } catch(const std::exception&){ d.push_back(-1); } } return d; },0,1,0,false,true}); } }
inline std::vector<Op> grids(int level){ std::vector<Op> r; for(int hall: level?std::vector<int>{2,125,355,488}:std::vector<int>{125,355}){ auto& s=ir::settings()[hall-1]; auto sym=Spacegroup(s.hall).get_spacegroup_symmetry(); auto par=ir::parameters(s,ir::shapes()[0]); auto c=crystal(sym,8,0,3); std::vector<std::array<double,3>> pos; for(auto& x:c.r) pos.push_back({x[0],x[1],x[2]}); auto L=pos.empty()?ir::lattice(s,ir::shapes()[0]):Lattice<double>(Direct(par.first,par.second,sym,Basis(pos,c.type),false,AngleUnit::degree)); BrillouinZone bz(L); auto d=tets::from("",bz.get_ir_polyhedron()); auto Q=points(L,2,1.3,hall); std::vector<V> in{d.c,lat::add(lat::mul(d.c,0.5),lat::mul(d.v[0],0.5)),lat::add(lat::mul(d.c,0.6),lat::mul(d.v.back(),0.4))}; auto inside=from_xyz_like(LengthUnit::inverse_angstrom,L,Domain::array(in)); std::string z=vf::fmt("hall %d ",hall); double vol=0.6*d.volume;
    { auto g=std::make_shared<BrillouinZoneTrellis3<double,C,double>>(bz,vol,false); grid(r,z+"trellis",g,tets::points(g->get_xyz()),L,c.r.size(),Q,inside,level); }
    { auto g=std::make_shared<BrillouinZoneNest3<double,C,double>>(bz,vol,ind_t(5)); grid(r,z+"nest",g,tets::points(g->get_xyz()),L,c.r.size(),Q,inside,level); }
    { auto g=std::make_shared<BrillouinZoneMesh3<double,C,double>>(bz,vol,1); grid(r,z+"mesh",g,tets::points(g->get_mesh_xyz()),L,c.r.size(),Q,inside,level); } }
  return r; }
//! building grids, merging tables, sums
typedef std::pair<VertexMapSet<double,Array2>,VertexIndexMap> Table;
inline std::vector<Op> builders(int level){ std::vector<Op> r; auto bodies=tets::bodies(); for(auto& b:bodies){ if(b.name!="octahedron"&&b.name!="cube"&&b.name!="wedge"&&!(level&&(b.name=="tetrahedron about the origin"||b.name=="slanted"))) continue; auto d=std::make_shared<Domain>(b); for(int always=0;always<2;++always){ if(always&&b.name!="cube") continue; double share=b.name=="cube"?3.:2.; 
    r.push_back({vf::fmt("build trellis %s%s",b.name.c_str(),always?" triangulated":""),[=](int t){ omp_set_num_threads(t); polytrellis::PolyTrellis<double,C,double,Array2> g(d->poly(),d->volume/share,bool(always)); Digest o; auto v=tets::points(g.vertices()); for(auto& x:v) for(double y:x) o.push_back(y); std::vector<V> in{d->c,lat::add(lat::mul(d->c,0.5),lat::mul(d->v[0],0.5))}; auto a=field<double>(v,{2,0,0,1},RotatesLike::vector,LengthUnit::real_lattice,1); auto bb=field<C>(v,{1,0,0,1},RotatesLike::vector,LengthUnit::real_lattice,2); g.replace_data(a,bb); auto p=g.interpolate_at(Domain::array(in),1); Array2<double> x(std::get<0>(p)); put(o,x); return o; },1e-9,1,b.name=="wedge"?0:-1,true}); }
    for(int levels=1;levels<=3;++levels) r.push_back({vf::fmt("build mesh %s levels %d",b.name.c_str(),levels),[=](int t){ omp_set_num_threads(t); Mesh3<double,C,double,Array2> m(Domain::array(d->v),d->f,d->volume/6,levels,-1); Digest o; auto v=tets::points(m.get_mesh_xyz()); for(auto& x:v) for(double y:x) o.push_back(y); std::vector<V> in{d->c,lat::add(lat::mul(d->c,0.5),lat::mul(d->v[0],0.5))}; auto a=field<double>(v,{2,0,0,1},RotatesLike::vector,LengthUnit::real_lattice,1); auto bb=field<C>(v,{1,0,0,1},RotatesLike::vector,LengthUnit::real_lattice,2); m.replace_data(a,bb); auto p=m.interpolate_at(Domain::array(in),1); Array2<double> x(std::get<0>(p)); put(o,x); o.push_back(m.get_mesh_tetrehedra().size(0)); return o; },1e-9,levels>1?2:3,1}); }
  for(int n=2;n<=(level?6:5);++n){ Array2<double> knots(4u,3u); for(ind_t i=0;i<4;++i) for(ind_t j=0;j<3;++j) knots.val(i,j)=num(i*3+j,5); auto in=std::make_shared<std::vector<Table>>(); for(int t=0;t<n;++t){ Table x(VertexMapSet<double,Array2>(knots,1e-10,1000),VertexIndexMap()); for(int c=0;c<2;++c){ auto& at=x.second.get(ind_t(t*2+c)); at.push_back(x.first.preserve((t+c*2)%4)); Array2<double> p(1u,3u); for(int j=0;j<3;++j) p.val(0,j)=1+num((t+c)%3,j+7); at.push_back(x.first.add(p)); at.push_back(x.first.origin_index()); at.push_back(x.first.preserve((3*t+c)%4)); } in->push_back(x); } r.push_back({vf::fmt("merge %d tables",n),[=](int t){ omp_set_num_threads(t); auto m=vertex_maps::parallel_reduce(*in); Digest d; put(d,m.first.consolidate().pristine()); for(int c=0;c<2*n;++c) put(d,m.second.decode(m.first.preserved_count(),ind_t(c))); return d; },0,4,n>3?2:3}); }
  for(int n:{1,2,3,5,8}){ auto a=std::make_shared<std::vector<C>>(), b=std::make_shared<std::vector<C>>(); for(int i=0;i<n;++i){ a->push_back(value<C>(i,3)); b->push_back(value<C>(i,9)); } r.push_back({vf::fmt("hermitian product of %d",n),[=](int t){ omp_set_num_threads(t); C h=brille::utils::hermitian_product(ind_t(n),a->data(),b->data()); return Digest{h.real(),h.imag()}; },1e-12,5,3}); }
  return r; }
}
