// the cells of a hybrid grid, in the orthonormal frame
#pragma once
#include "tets.hpp"
#include "bz_trellis.hpp"
namespace cells {
using lat::V; using tets::Tet; using tets::Domain; using brille::ind_t; using solid::Plane;
struct Cell { bool cube; std::vector<size_t> v; std::vector<std::array<size_t,4>> t; };      //!< indices of the corners, and of the tetrahedra of a cell at the surface
struct Grid { std::array<size_t,3> n; V lo,step; std::vector<V> x; std::map<size_t,Cell> c; std::vector<brille::NodeType> types;
  std::array<size_t,3> sub(size_t i) const { return {i%n[0],(i/n[0])%n[1],i/n[0]/n[1]}; }
  V corner(size_t i, int a, int b, int c) const { auto s=sub(i); return {lo[0]+step[0]*double(s[0]+a),lo[1]+step[1]*double(s[1]+b),lo[2]+step[2]*double(s[2]+c)}; }
  std::vector<Plane> bin(size_t i) const { V a=corner(i,0,0,0),b=corner(i,1,1,1); return {{{1,0,0},b[0]},{{0,1,0},b[1]},{{0,0,1},b[2]},{{-1,0,0},-a[0]},{{0,-1,0},-a[1]},{{0,0,-1},-a[2]}}; } };
template<class T> Grid grid(const T& t, const Domain& d, double limit){ Grid g; auto s=t.size(); V hi{-1e300,-1e300,-1e300}; g.lo={1e300,1e300,1e300}; for(auto& x:d.v) for(int k=0;k<3;++k){ g.lo[k]=std::min(g.lo[k],x[k]); hi[k]=std::max(hi[k],x[k]); } for(int k=0;k<3;++k){ g.n[k]=s[k]; double l=hi[k]-g.lo[k]; g.step[k]=l/std::ceil(l/std::cbrt(limit)); }
  // bin widths are known only to rounding of the division, so follow the number of bins if one more or less than expected would match it better
  g.x=tets::points(brille::get_xyz(t.vertices())); g.types=t.all_node_types(); for(size_t i=0;i<g.types.size();++i){ if(g.types[i]==brille::NodeType::cube){ Cell c{true,{},{}}; for(auto q:t.cube_node(ind_t(i)).vertices()) c.v.push_back(q); g.c[i]=c; } else if(g.types[i]==brille::NodeType::poly){ auto& p=t.poly_node(ind_t(i)); Cell c{false,{},{}}; for(auto q:p.vertices()) c.v.push_back(q); for(auto& q:p.vertices_per_tetrahedron()) c.t.push_back({q[0],q[1],q[2],q[3]}); g.c[i]=c; } } return g; }
//! order of the corners of a cuboid cell
static const int ORDER[8][3]={{0,0,0},{1,0,0},{1,1,0},{0,1,0},{1,0,1},{0,0,1},{0,1,1},{1,1,1}};
//! each cell as a text that does not depend on the numbering of vertices
inline std::map<size_t,std::set<std::string>> portrait(const Grid& g, double size){ std::map<size_t,std::set<std::string>> r; auto at=[&](size_t i){ V x=g.x[i]; std::string s; for(int k=0;k<3;++k) s+=vf::fmt("%.0f ",std::round(x[k]/size*1e7)+0.0); return s; }; for(auto& [i,c]:g.c){ if(c.cube){ std::string s="cube "; for(auto v:c.v) s+=at(v)+"; "; r[i].insert(s); } else for(auto& t:c.t){ std::set<std::string> q; for(auto v:t) q.insert(at(v)); std::string s; for(auto& z:q) s+=z+"; "; r[i].insert(s); } } return r; }
}
