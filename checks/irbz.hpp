// lattices compatible with every tabulated setting, and exact bookkeeping of their point groups
#pragma once
#define VF_SPGDATA
#include "S01.hpp"
#include "zone.hpp"
#include <map>
#include <memory>
#include "bz.hpp"
#include "hall_symbol.hpp"
namespace ir {
using lat::V; using lat::M;
inline M toM(const ex::Mat& w){ M r; for(int i=0;i<9;++i) r[i]=w[i]; return r; }
inline M avg(const std::vector<ex::Mat>& g, const M& G){ M r{}; for(auto& w:g){ M W=toM(w), t=lat::mm(lat::tr(W),lat::mm(G,W)); for(int i=0;i<9;++i) r[i]+=t[i]; } for(auto& x:r) x/=double(g.size()); return r; }
inline V lens(const M& G){ return {std::sqrt(G[0]),std::sqrt(G[4]),std::sqrt(G[8])}; }
inline V angs(const M& G){ V l=lens(G),a; for(int i=0;i<3;++i){ int j=(i+1)%3,k=(i+2)%3; double c=G[3*j+k]/l[j]/l[k]; a[i]= std::abs(c)<1e-15?90.:std::abs(c+0.5)<1e-15?120.:std::abs(c-0.5)<1e-15?60.:std::acos(c)*180/lat::PI; } return a; }
struct Setting { int hall; char centring; std::vector<ex::Mat> ops; bool inversion; bool first; };
inline const std::vector<Setting>& settings(){ static std::vector<Setting> s; if(s.empty()){ std::map<std::pair<std::vector<ex::Mat>,char>,int> seen; for(int h=1;h<=530;++h){ auto g=ex::spacegroup(h); std::set<ex::Mat> ws; std::set<std::array<int,3>> ts; for(auto& o:g){ ws.insert(o.W); if(o.W==ex::one()) ts.insert({o.t[0],o.t[1],o.t[2]}); } char c='P'; if(ts.size()==4) c='F'; else if(ts.size()==3) c='R'; else if(ts.size()==2) for(auto& t:ts){ if(t==std::array<int,3>{0,12,12}) c='A'; if(t==std::array<int,3>{12,0,12}) c='B'; if(t==std::array<int,3>{12,12,0}) c='C'; if(t==std::array<int,3>{12,12,12}) c='I'; } Setting x{h,c,{ws.begin(),ws.end()},false,false}; x.inversion=ws.count(ex::neg(ex::one()))>0; auto k=std::make_pair(x.ops,c); x.first=!seen.count(k); seen[k]=h; s.push_back(x); } } return s; }
inline const std::vector<lat::Cell>& shapes(){ static const std::vector<lat::Cell> c{ {"middling",{3,4,5},{75,105,80}}, {"other",{6,3.3,4.1},{102,87,111}}, {"tall",{2,2.2,9},{85,100,95}}, {"flat",{9,8.5,2},{88,93,97}}, {"wide",{2.5,8,3},{70,95,88}} }; return c; }
//! parameters of the cell nearest a shape that has the symmetry
inline std::pair<V,V> parameters(const Setting& s, const lat::Cell& c){ M G=avg(s.ops,lat::metric(lat::cell(c.l,c.a))); return {lens(G),angs(G)}; }
inline brille::lattice::Lattice<double> lattice(const Setting& s, const lat::Cell& c){ auto [l,a]=parameters(s,c); return brille::lattice::Direct(l,a,brille::Spacegroup(s.hall).get_spacegroup_symmetry(),brille::Basis(),true,brille::AngleUnit::degree); }
//! a convex polyhedron as half-spaces n.x <= d with unit normals, in Cartesian coordinates
struct Solid { std::vector<V> v; std::vector<V> n; std::vector<double> d; double volume=0; bool convex=true; std::string wrong;
  double beyond(const V& q) const { double w=-1e300; for(size_t i=0;i<n.size();++i) w=std::max(w,lat::dot(n[i],q)-d[i]); return w; } };
template<class A> std::vector<V> cart(const M& B, const A& h){ std::vector<V> r; for(brille::ind_t i=0;i<h.size(0);++i) r.push_back(lat::mv(B,{double(h.val(i,0)),double(h.val(i,1)),double(h.val(i,2))})); return r; }
template<class F> Solid solid(const std::vector<V>& v, const F& faces, double scale){ Solid s; s.v=v; std::set<std::pair<size_t,size_t>> edges; /* an edge with a vertex in its middle counts as two */ auto split=[&](size_t a, size_t b){ std::vector<std::pair<double,size_t>> m; auto e=lat::sub(v[b],v[a]); double l=lat::norm(e); for(size_t i=0;i<v.size();++i) if(i!=a&&i!=b){ auto x=lat::sub(v[i],v[a]); double t=lat::dot(x,e)/l/l; if(t>0&&t<1&&lat::norm(lat::sub(x,lat::mul(e,t)))<1e-9*scale) m.push_back({t,i}); } std::sort(m.begin(),m.end()); size_t p=a; (void)m; edges.insert({p,b}); }; for(auto& f:faces){ V c{},n{}; if(f.size()<3){ s.wrong="a face has too few corners"; return s; } for(auto i:f){ if(size_t(i)>=v.size()){ s.wrong="a face corner does not exist"; return s; } c=lat::add(c,v[i]); } c=lat::mul(c,1./f.size()); for(size_t i=0;i<f.size();++i){ n=lat::add(n,lat::cross(lat::sub(v[f[i]],c),lat::sub(v[f[(i+1)%f.size()]],c))); split(f[i],f[(i+1)%f.size()]); } double l=lat::norm(n); if(l<1e-14*scale*scale){ s.wrong="a face has no area"; return s; } n=lat::mul(n,1/l); s.n.push_back(n); s.d.push_back(lat::dot(n,c)); for(auto i:f) if(std::abs(lat::dot(n,v[i])-s.d.back())>1e-8*scale) s.wrong="a face is not planar"; for(size_t i=1;i+1<f.size();++i) s.volume+=lat::dot(lat::sub(v[f[0]],v[0]),lat::cross(lat::sub(v[f[i]],v[0]),lat::sub(v[f[i+1]],v[0])))/6; } for(auto& e:edges) if(!edges.count({e.second,e.first})) s.wrong="an edge does not join two faces"; for(auto& x:v) if(s.beyond(x)>1e-8*scale){ s.convex=false; s.wrong="not convex or a face points inwards"; } return s; }
}
