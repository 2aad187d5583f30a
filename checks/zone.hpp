// reference Voronoi zone of a reciprocal lattice, from half-spaces alone, and a catalogue of lattices; independent of brille
#pragma once
#include "lat.hpp"
#include <set>
namespace zone {
using lat::V; using lat::M;
//! (h,k,l) is a reciprocal lattice point of the centred lattice
inline bool allowed(char c, int h, int k, int l){ switch(c){ case 'A': return (k+l)%2==0; case 'B': return (h+l)%2==0; case 'C': return (h+k)%2==0; case 'I': return (h+k+l)%2==0; case 'F': return (h+k)%2==0&&(k+l)%2==0; case 'R': return ((-h+k+l)%3+3)%3==0; default: return true; } }
inline int multiplicity(char c){ return c=='P'?1:c=='F'?4:c=='R'?3:2; }
//! a basis of the allowed points, as hkl columns
inline M basis(char c){ switch(c){ case 'A': return lat::cols({1,0,0},{0,1,1},{0,-1,1}); case 'B': return lat::cols({1,0,1},{0,1,0},{-1,0,1}); case 'C': return lat::cols({1,1,0},{-1,1,0},{0,0,1}); case 'I': return lat::cols({0,1,1},{1,0,1},{1,1,0}); case 'F': return lat::cols({-1,1,1},{1,-1,1},{1,1,-1}); case 'R': return lat::cols({1,0,1},{-1,1,1},{0,-1,1}); default: return {1,0,0,0,1,0,0,0,1}; } }
struct Zone { M B; char c; std::vector<V> tau; std::vector<V> hkl; std::vector<V> vertices; double volume, radius, inner; std::vector<double> half;
  //! largest of q.tau-tau^2/2 in units of tau^2: <0 inside, 0 on the surface
  double beyond(const V& q) const { double w=-1e300; for(size_t i=0;i<tau.size();++i) w=std::max(w,lat::dot(q,tau[i])/(2*half[i])-0.5); return w; } };
//! B: columns are the conventional reciprocal basis vectors
inline Zone make(const M& B, char c){ Zone z; z.B=B; z.c=c; M H=basis(c); M P=lat::mm(B,H); z.volume=std::abs(lat::det(P));
  // reduce the basis by pairs, with the hkl columns alongside
  std::array<V,3> b{lat::col(P,0),lat::col(P,1),lat::col(P,2)}, h{lat::col(H,0),lat::col(H,1),lat::col(H,2)}; for(int it=0;it<500;++it){ bool did=false; for(int i=0;i<3&&!did;++i) for(int x=-1;x<=1&&!did;++x) for(int y=-1;y<=1;++y){ if(!x&&!y) continue; int j=(i+1)%3,k=(i+2)%3; V n=lat::add(b[i],lat::add(lat::mul(b[j],x),lat::mul(b[k],y))); if(lat::dot(n,n)<lat::dot(b[i],b[i])*(1-1e-12)){ b[i]=n; h[i]=lat::add(h[i],lat::add(lat::mul(h[j],x),lat::mul(h[k],y))); did=true; break; } } if(!did) break; }
  std::vector<std::pair<V,V>> all; for(int i=-3;i<=3;++i) for(int j=-3;j<=3;++j) for(int k=-3;k<=3;++k) if(i||j||k){ V t=lat::add(lat::mul(b[0],i),lat::add(lat::mul(b[1],j),lat::mul(b[2],k))), g=lat::add(lat::mul(h[0],i),lat::add(lat::mul(h[1],j),lat::mul(h[2],k))); all.push_back({t,g}); }
  // Voronoi's criterion: tau is a face vector iff +-tau are the only shortest vectors of tau + 2L
  for(auto& [t,g]: all){ V m=lat::mul(t,0.5); double d=lat::dot(m,m); bool strict=true; for(auto& [u,v]: all){ V x=lat::sub(m,u); double e=lat::dot(x,x); bool same=lat::norm(lat::sub(u,t))<1e-9*lat::norm(t); if(!same && e<=d*(1+1e-9)) { strict=false; break; } } if(strict){ z.tau.push_back(t); z.hkl.push_back(g); z.half.push_back(d*2); } }
  size_t n=z.tau.size(); double big=0; for(auto& t: z.tau) big=std::max(big,lat::norm(t)); z.inner=1e300; for(auto& t:z.tau) z.inner=std::min(z.inner,lat::norm(t)/2);
  for(size_t i=0;i<n;++i) for(size_t j=i+1;j<n;++j) for(size_t k=j+1;k<n;++k){ M A=lat::tr(lat::cols(z.tau[i],z.tau[j],z.tau[k])); double d=lat::det(A); if(std::abs(d)<1e-9*lat::norm(z.tau[i])*lat::norm(z.tau[j])*lat::norm(z.tau[k])) continue; V v=lat::mv(lat::inv(A),{z.half[i],z.half[j],z.half[k]}); if(z.beyond(v)>1e-9) continue; bool seen=false; for(auto& w: z.vertices) if(lat::norm(lat::sub(v,w))<1e-8*big){ seen=true; break; } if(!seen) z.vertices.push_back(v); }
  z.radius=0; for(auto& v: z.vertices) z.radius=std::max(z.radius,lat::norm(v)); return z; }
}
