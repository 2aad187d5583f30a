// domains to be gridded, and checks of a set of tetrahedra against a convex body
#pragma once
#include "irbz.hpp"
#include "solid.hpp"
namespace tets {
using lat::V; using lat::M; using solid::Plane;
using Poly=brille::polyhedron::Poly<double,brille::Array2>;
struct Domain { std::string name; std::vector<V> v; std::vector<std::vector<brille::ind_t>> f; std::vector<Plane> p; double volume=0,size=0; V c{}; bool strict=false;
  double beyond(const V& x) const { return solid::beyond(p,x); }
  Poly poly() const { return Poly(array(v),brille::polyhedron::Faces(f)); }
  static brille::bArray<double> array(const std::vector<V>& v){ brille::bArray<double> a(brille::ind_t(v.size()),3u); for(brille::ind_t i=0;i<v.size();++i) for(brille::ind_t j=0;j<3;++j) a.val(i,j)=v[i][j]; return a; } };
inline void finish(Domain& d){ for(auto& x:d.v) d.c=lat::add(d.c,lat::mul(x,1./d.v.size())); d.size=0; for(auto& x:d.v) d.size=std::max(d.size,lat::norm(lat::sub(x,d.c))); }
inline Domain from(const std::string& name, const std::vector<Plane>& ps){ auto b=solid::body(ps); Domain d; d.name=name; d.v=b.v; d.p=b.p; d.volume=b.volume; for(auto& f:b.f) d.f.emplace_back(f.begin(),f.end()); finish(d); return d; }
template<class P> Domain from(const std::string& name, const P& poly){ Domain d; d.name=name; auto x=brille::get_xyz(poly.vertices()); for(brille::ind_t i=0;i<x.size(0);++i) d.v.push_back({x.val(i,0),x.val(i,1),x.val(i,2)}); for(auto& f:poly.faces().faces()) d.f.emplace_back(f.begin(),f.end()); double sc=0; for(auto& y:d.v) sc=std::max(sc,lat::norm(y)); auto s=ir::solid(d.v,d.f,sc); if(!s.wrong.empty()) vf::fail("a zone is a convex polyhedron",name+" "+s.wrong); for(size_t i=0;i<s.n.size();++i) d.p.push_back({s.n[i],s.d[i]}); d.volume=s.volume; finish(d); return d; }
//! bodies with the origin inside, on a face, on an edge, at a corner and outside
inline std::vector<Domain> bodies(){ std::vector<Domain> r; using solid::box;
  auto add=[&](const char* n, std::vector<Plane> ps){ r.push_back(from(n,ps)); r.back().strict=true; }; auto with=[](std::vector<Plane> a, std::vector<Plane> b){ a.insert(a.end(),b.begin(),b.end()); return a; };
  add("cube",box(1,1,1)); add("cube with the origin at a corner",box(1,1,1,{1,1,1})); add("brick off the origin",box(1,2,0.5,{3,1,-2})); add("brick with the origin on a face",box(1,0.75,1.25,{1,0.125,0})); add("brick with the origin on an edge",box(1,0.75,1.25,{1,0.75,0}));
  add("tetrahedron",{{{-1,0,0},0},{{0,-1,0},0},{{0,0,-1},0},{{1,1,1},1}}); add("tetrahedron about the origin",{{{-1,-1,-1},0.5},{{1,1,-1},0.5},{{1,-1,1},0.5},{{-1,1,1},0.5}});
  { std::vector<Plane> o; for(int s=0;s<8;++s) o.push_back({{s&1?1.:-1.,s&2?1.:-1.,s&4?1.:-1.},1}); add("octahedron",o); add("truncated octahedron",with(box(0.75,0.75,0.75),o)); }
  { std::vector<Plane> h{{{0,0,1},0.75},{{0,0,-1},0.75}}; for(int i=0;i<6;++i) h.push_back({{std::cos(i*lat::PI/3),std::sin(i*lat::PI/3),0},1}); add("hexagonal prism",h); }
  { std::vector<Plane> h; for(int s=0;s<4;++s) for(int k=0;k<3;++k){ V n{}; n[(k+1)%3]=s&1?1:-1; n[(k+2)%3]=s&2?1:-1; h.push_back({n,1}); } add("rhombic dodecahedron",h); }
  add("cube without a corner",with(box(1,1,1),{{{1,1,1},2}})); add("cube without an edge",with(box(1,1,1),{{{1,1,0},1.5}})); add("slanted",with(box(1,1,1),{{{1,2,0},1},{{-1,0,2},1.5},{{0,-2,1},2}})); add("wedge",{{{-1,0,0},0},{{0,-1,0},0},{{1,1,0},1},{{0,0,1},1},{{0,0,-1},0}}); add("thin wedge at the origin",{{{0,-1,0},0},{{-0.25,1,0},0},{{1,0,0},1},{{0,0,1},0.5},{{0,0,-1},0.5}}); add("flat",box(1,1.5,0.0625)); add("needle",box(0.125,0.1,2)); add("pyramid",{{{0,0,-1},0},{{1,0,1},1},{{-1,0,1},1},{{0,1,1},1},{{0,-1,1},1}});
  add("small",[]{ auto b=box(1,1.25,0.75); for(auto& p:b) p.d*=0.01; return b; }()); add("large",[&]{ auto b=with(box(1,1.25,0.75),{{{1,1,1},1.75}}); for(auto& p:b) p.d*=100; return b; }());
  return r; }
struct Zone { std::string name; int hall; brille::BrillouinZone bz; };
inline brille::BrillouinZone zone(int hall, int shape){ auto& s=ir::settings()[hall-1]; return brille::BrillouinZone(ir::lattice(s,ir::shapes()[shape])); }
//! settings covering every family, centring and both inversion kinds
inline const std::vector<int>& halls(){ static const std::vector<int> h{1,2,3,18,57,61,108,119,122,125,191,209,212,227,251,334,337,349,353,355,366,388,430,433,435,438,444,446,454,462,468,488,489,491,494,498,503,504,505,517,523,529}; return h; }
typedef std::array<V,4> Tet;
inline double volume(const Tet& t){ return lat::dot(lat::sub(t[1],t[0]),lat::cross(lat::sub(t[2],t[0]),lat::sub(t[3],t[0])))/6; }
//! depth to which two tetrahedra overlap: the least over all separating directions
inline double overlap(const Tet& a, const Tet& b){ double least=1e300; auto tryit=[&](const V& n0){ double l=lat::norm(n0); if(l<1e-12) return; V n=lat::mul(n0,1/l); double a0=1e300,a1=-1e300,b0=1e300,b1=-1e300; for(auto& x:a){ double d=lat::dot(n,x); a0=std::min(a0,d); a1=std::max(a1,d); } for(auto& x:b){ double d=lat::dot(n,x); b0=std::min(b0,d); b1=std::max(b1,d); } least=std::min({least,a1-b0,b1-a0}); };
  for(int k=0;k<3;++k){ V e{}; e[k]=1; tryit(e); } static const int f[4][3]={{0,1,2},{0,1,3},{0,2,3},{1,2,3}}, e[6][2]={{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
  if(least<=0) return least; for(auto* t:{&a,&b}) for(auto& q:f){ V u=lat::sub((*t)[q[1]],(*t)[q[0]]),w=lat::sub((*t)[q[2]],(*t)[q[0]]); V n=lat::cross(u,w); if(lat::norm(n)>1e-9*lat::norm(u)*lat::norm(w)) tryit(n); if(least<=0) return least; }
  for(auto& p:e) for(auto& q:e){ V u=lat::sub(a[p[1]],a[p[0]]),w=lat::sub(b[q[1]],b[q[0]]); V n=lat::cross(u,w); if(lat::norm(n)>1e-6*lat::norm(u)*lat::norm(w)) tryit(n); if(least<=0) return least; } return least; }
template<class A, class I> std::vector<Tet> collect(const A& v, const I& vi){ std::vector<Tet> r; for(auto& t:vi){ Tet x; for(int k=0;k<4;++k) x[k]=v.at(t[k]); r.push_back(x); } return r; }
template<class A> std::vector<V> points(const A& a){ std::vector<V> r; for(brille::ind_t i=0;i<a.size(0);++i) r.push_back({a.val(i,0),a.val(i,1),a.val(i,2)}); return r; }
//! tetrahedra lie inside a body, overlap nowhere, add up to its volume and are not larger than twice a limit on average (and not much larger one by one for bodies where the mesher keeps to it)
inline bool partition(const Domain& d, const std::vector<Tet>& ts, double limit, const std::string& id){ double sum=0; bool ok=true; double tol=1e-8*d.size; auto bad=[&](const char* w, const std::string& m=""){ vf::fail(w,id+" "+m); return false; };
  for(auto& t:ts){ double v=volume(t); if(std::abs(v)<1e-12*d.volume/double(ts.size())) ok=bad("a tetrahedron has volume",vf::fmt("%g",v)); sum+=std::abs(v); if(limit>0&&d.strict&&std::abs(v)>limit*3) return bad("the size limit is followed",vf::fmt("%g > %g",std::abs(v),limit)); for(auto& x:t) if(d.beyond(x)>tol) return bad("the tetrahedra lie inside",lat::show(x)); }
  if(limit>0&&sum/double(ts.size())>2*limit) return bad("the size limit is followed on average",vf::fmt("%g > %g",sum/double(ts.size()),limit));
  if(!lat::near(sum,d.volume,1e-8)) return bad("the volumes add up",vf::fmt("%.12g expected %.12g",sum,d.volume));
  // neighbours by bounding box along x
  std::vector<std::array<double,2>> bx; for(auto& t:ts){ double lo=1e300,hi=-1e300; for(auto& x:t){ lo=std::min(lo,x[0]); hi=std::max(hi,x[0]); } bx.push_back({lo,hi}); } std::vector<size_t> o(ts.size()); for(size_t i=0;i<o.size();++i) o[i]=i; std::sort(o.begin(),o.end(),[&](size_t a, size_t b){ return bx[a][0]<bx[b][0]; });
  for(size_t a=0;a<o.size();++a) for(size_t b=a+1;b<o.size();++b){ size_t i=o[a],j=o[b]; if(bx[j][0]>=bx[i][1]-tol) break; double w=overlap(ts[i],ts[j]); if(w>tol*10) return bad("the tetrahedra do not overlap",vf::fmt("by %g of %g",w,d.size)); }
  vf::trans(ts.size()); return ok; }
//! the sets of vertex pairs that share a tetrahedron
template<class I> std::set<std::pair<size_t,size_t>> pairs(const I& vi){ std::set<std::pair<size_t,size_t>> r; for(auto& t:vi) for(int a=0;a<4;++a) for(int b=0;b<4;++b) if(a!=b) r.insert({t[a],t[b]}); return r; }
}
